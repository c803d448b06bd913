package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	jv "github.com/Andrew-M-C/go.jsonvalue"
)

func init() {
	register(&Prop{
		ID: "P21",
		Rule: "arrays of many lengths and contents, parsed, built and edited, at the top and nested, are sorted under random total preorders (with many ties, by value, by type, by size, reversed, constant); node identity before and after, the order of every pair, " +
			"the callback's arguments and everything outside the array are monitored, then the array is read, marshalled and edited further against a model; non-trivial: distinct arrays of at least two elements with a preorder",
		Need: []string{"sorted_arrays", "compared", "ties", "moved", "long_arrays", "patterns", "nested_arrays", "not_arrays", "nil_function", "edited_after", "sorted_again", "inside_callbacks", "left_by_panic", "fickle"},
		Suites: []Suite{
			{Name: "arrays", Quick: 240000, Thorough: 4000000, Run: p21Arrays},
			{Name: "long", Quick: 1200, Thorough: 15000, Run: p21Long},
			{Name: "patterns", Quick: 60000, Thorough: 1200000, Run: p21Patterns},
			{Name: "small", Quick: 5461, Thorough: 5461, Run: p21Small},
			{Name: "others", Quick: 32000, Thorough: 200000, Run: p21Others},
			{Name: "life", Quick: 6000, Thorough: 90000, Run: lifeRun(genCfg{nulls: 2}, readSorted)},
		},
	})
}

// preorder ranks model nodes: less is a comparison of ranks
func p21Preorder(c *Case, a []*RV) (map[*RV]float64, string) {
	r := c.R
	rank := map[*RV]float64{}
	kind := r.Intn(8)
	for i, x := range a {
		var f float64
		switch kind {
		case 0: // all the same
		case 1: // the type
			f = float64(x.K)
		case 2: // the size
			f = float64(x.size())
		case 3: // few classes
			f = float64(len(x.canon()) % 3)
		case 4: // number value, everything else first
			f = math.Inf(-1)
			if x.K == kNum && x.N != "" {
				f, _ = strconv.ParseFloat(x.N, 64)
			}
		case 5: // the reverse of what it is
			f = -float64(i)
		case 6: // as it is
			f = float64(i)
		default:
			f = float64(r.Intn(len(a) + 1))
		}
		rank[x] = f
	}
	names := []string{"constant", "by type", "by size", "few classes", "by number", "reversed", "already sorted", "random ranks"}
	if r.Intn(3) == 0 {
		for x := range rank {
			rank[x] = -rank[x]
		}
		return rank, names[kind] + " descending"
	}
	return rank, names[kind]
}

// p21Sort sorts the array v of document doc, whose models are t and dt, and follows in the models
func p21Sort(c *Case, doc, v *jv.V, dt, t *RV) {
	before := pointers(doc)
	model := map[*jv.V]*RV{}
	order := make([]*jv.V, v.Len())
	for i := range order {
		x, err := v.Get(i)
		if err != nil {
			c.Fail("Get(%d): %v", i, err)
		}
		if model[x] != nil {
			c.Fail("one node twice in the array")
		}
		model[x] = t.A[i]
		order[i] = x
	}
	if len(order) != len(t.A) {
		c.Fail("length %d, want %d", len(order), len(t.A))
	}
	rank, what := p21Preorder(c, t.A)
	c.NoteMore("; sort %s (%s)", trunc(t.canonSeq(), 800), what)
	calls := 0
	every := 0 // the function itself uses the library, every so many calls
	if c.R.Intn(12) == 0 {
		every = 1 + c.R.Intn(2*len(order)+5)
	}
	throwAt, fickle := -1, 0 // or leaves by a panic, or follows no order: then the array is sorted again, properly
	switch c.R.Intn(16) {
	case 0:
		throwAt = 1 + c.R.Intn(2*len(order)+1)
	case 1:
		fickle = 1 + c.R.Intn(4)
	}
	f := func(x, y *jv.V) bool {
		calls++
		a, ok1 := model[x]
		b, ok2 := model[y]
		if !ok1 || !ok2 {
			c.Fail("the less function is given a value that is not an element: %v %v", x, y)
		}
		if calls == throwAt {
			c.Hit("left_by_panic")
			panic(errThrown{calls})
		}
		if every > 0 && calls%every == 0 {
			c.meddle(x, y)
		}
		switch fickle {
		case 1:
			return true
		case 2:
			return c.R.Intn(2) == 0
		case 3:
			return calls%3 == 0
		case 4:
			return rank[a] <= rank[b]
		}
		return rank[a] < rank[b]
	}
	if throwAt > 0 || fickle > 0 {
		thrown(func() { v.SortArray(f) })
		if fickle > 0 {
			c.Hit("fickle")
		}
		left := map[*jv.V]bool{}
		for i := 0; i < v.Len(); i++ {
			x, err := v.Get(i)
			if model[x] == nil || left[x] {
				c.Fail("after a sort that found no order: element %d is %v, %v, which is no element of before, or is there twice", i, x, err)
			}
			left[x] = true
		}
		if len(left) != len(order) {
			c.Fail("after a sort that found no order: %d elements of %d", len(left), len(order))
		}
		throwAt, fickle, calls = -1, 0, 0
	}
	v.SortArray(f)
	c.HitN("compared", calls)
	if v.Len() != len(order) {
		c.Fail("%d elements after sorting, %d before", v.Len(), len(order))
	}
	seen := map[*jv.V]bool{}
	var now []*RV
	for i := range order {
		x, err := v.Get(i)
		if err != nil {
			c.Fail("Get(%d) after sorting: %v", i, err)
		}
		m, ok := model[x]
		if !ok {
			c.Fail("element %d after sorting is no element of before", i)
		}
		if seen[x] {
			c.Fail("element %d after sorting is there twice", i)
		}
		seen[x] = true
		now = append(now, m)
		if x != order[i] {
			c.Hit("moved")
		}
		if i > 0 {
			switch p := now[i-1]; {
			case rank[m] < rank[p]:
				c.Fail("element %d is less than element %d after sorting: ranks %v, %v", i, i-1, rank[m], rank[p])
			case rank[m] == rank[p]:
				c.Hit("ties")
			}
		}
	}
	if len(order) > 1 && calls == 0 {
		c.Fail("sorted %d elements without calling the function", len(order))
	}
	t.A = now
	if d := diffV(doc, dt); d != "" {
		c.Fail("document after sorting: %s", d)
	}
	// every node is the same node, at its new place
	same := map[*jv.V]int{}
	for _, p := range before {
		same[p]++
	}
	for _, p := range pointers(doc) {
		same[p]--
	}
	for _, n := range same {
		if n != 0 {
			c.Fail("sorting changed the set of nodes of the document")
		}
	}
	c.Hit("sorted_arrays")
	c.Eval(1)
	if len(order) > 1 {
		c.Distinct(t.canon(), what)
	}
}

func p21Arrays(c *Case) {
	r := c.R
	g := &genCfg{maxDepth: 1 + r.Intn(3), maxKids: 1 + r.Intn(9), nonFinite: false}
	if r.Intn(2) == 0 {
		g.keys = smallKeys
	}
	dt := genDoc(r, g)
	doc := buildV(r, dt, r.Intn(3))
	c.Note("%s", trunc(dt.canonSeq(), 2000))
	h := &Hist{c: c, g: g, v: doc, m: dt, ptr: map[*RV]*jv.V{}, bad: 10, init: trunc(dt.canonSeq(), 500)}
	h.verify(false)
	for n := 1 + r.Intn(3); n > 0; n-- {
		if r.Intn(3) == 0 { // an array with a history
			for k := r.Intn(6); k > 0; k-- {
				h.edit([6]int{3, 3, 2, 2, 2, 0})
				h.verify(false)
			}
			c.Hit("edited_after")
		}
		var arrs []*RV
		for _, x := range nodes(dt, nil) {
			if x.K == kArr {
				arrs = append(arrs, x)
			}
		}
		if len(arrs) == 0 {
			return
		}
		t := arrs[r.Intn(len(arrs))]
		if t != dt {
			c.Hit("nested_arrays")
		}
		p21Sort(c, doc, h.ptr[t], dt, t)
		if r.Intn(3) == 0 {
			p21Sort(c, doc, h.ptr[t], dt, t)
			c.Hit("sorted_again")
		}
		h.verify(true)
	}
	out, err := doc.Marshal(jv.OptSetSequence())
	if err != nil {
		c.Fail("Marshal: %v", err)
	}
	if d := diffOut(strict(c, out, "Marshal"), dt, true, "$"); d != "" {
		c.Fail("marshalled after sorting: %s", d)
	}
	if c.Index < 6 {
		c.Sample("%s", trunc(string(c.note), 400))
	}
}

// p21Patterns: arrays of every length up to some hundreds that are sorted except for something: where one
// element, a few, or a whole run is out of place, code that looks for a shortcut finds one
func p21Patterns(c *Case) {
	r := c.R
	n := 2 + r.Intn(70)
	if r.Intn(4) == 0 {
		n = 70 + r.Intn(600)
	}
	ks := make([]int, n)
	step := 1 + r.Intn(3) // step 1 of 2: ties
	for i := range ks {
		ks[i] = i * 2 / step
	}
	what := ""
	mv := func(from, to int) {
		x := ks[from]
		ks = append(ks[:from], ks[from+1:]...)
		ks = append(ks[:to], append([]int{x}, ks[to:]...)...)
	}
	switch r.Intn(12) {
	case 0, 1:
		what = "last element belongs elsewhere"
		mv(r.Intn(n), n-1)
	case 2:
		what = "first element belongs elsewhere"
		mv(r.Intn(n), 0)
	case 3:
		what = "one element moved"
		mv(r.Intn(n), r.Intn(n))
	case 4:
		what = "rotated"
		k := r.Intn(n)
		ks = append(append([]int{}, ks[k:]...), ks[:k]...)
	case 5:
		what = "two sorted runs"
		k := r.Intn(n)
		for i := range ks {
			ks[i] = i % (k + 1)
		}
	case 6:
		what = "organ pipe"
		for i := range ks {
			ks[i] = min(i, n-1-i)
		}
	case 7:
		what = "swapped neighbours"
		for i := r.Intn(3); i+1 < n; i += 2 + r.Intn(9) {
			ks[i], ks[i+1] = ks[i+1], ks[i]
		}
	case 8:
		what = "two elements swapped"
		i, j := r.Intn(n), r.Intn(n)
		ks[i], ks[j] = ks[j], ks[i]
	case 9:
		what = "sorted, then a tail of new ones"
		for i := n - 1 - r.Intn(n); i < n; i++ {
			ks[i] = r.Intn(2 * n)
		}
	case 10:
		what = "strided"
		k := 1 + r.Intn(9)
		for i := range ks {
			ks[i] = i * k % n
		}
	default:
		what = "reversed with one out of place"
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			ks[i], ks[j] = ks[j], ks[i]
		}
		mv(r.Intn(n), r.Intn(n))
	}
	if r.Intn(3) == 0 {
		what += ", negated"
		for i := range ks {
			ks[i] = -ks[i]
		}
	}
	n = len(ks)
	t := rArr()
	for i, k := range ks {
		switch i % 3 {
		case 0:
			o := rObj()
			o.set("k", rNum(itoa(k)))
			o.set("i", rNum(itoa(i)))
			t.A = append(t.A, o)
		default:
			t.A = append(t.A, rArr(rNum(itoa(k)), rNum(itoa(i))))
		}
	}
	c.Note("%d elements, %s: %v", n, what, ks)
	v := buildV(r, t, r.Intn(3))
	key := func(x *jv.V) int {
		if x.IsArray() {
			return x.MustGet(0).Int()
		}
		return x.MustGet("k").Int()
	}
	at := map[*jv.V]int{}
	for i := range ks {
		at[v.MustGet(i)] = i
	}
	for round := 0; round < 2; round++ {
		v.SortArray(func(x, y *jv.V) bool { return key(x) < key(y) })
		seen := map[int]bool{}
		prev := math.MinInt64
		for i := 0; i < n; i++ {
			x := v.MustGet(i)
			j, ok := at[x]
			if !ok || seen[j] {
				c.Fail("element %d after sorting is a stranger or there twice", i)
			}
			seen[j] = true
			if k := key(x); k < prev {
				c.Fail("element %d has key %d after %d", i, k, prev)
			} else {
				prev = k
			}
		}
		if v.Len() != n {
			c.Fail("%d elements after sorting", v.Len())
		}
		c.Eval(1)
		if n > 2 && r.Intn(2) == 0 { // one more element, and again
			k := r.Intn(2*n) - n
			x := jv.NewArray()
			x.MustAppendInt(k).InTheEnd()
			if r.Intn(2) == 0 {
				v.MustAppend(x).InTheEnd()
			} else {
				v.MustAppend(x).InTheBeginning()
			}
			at[x] = n
			n++
		}
	}
	c.Hit("patterns")
	c.Distinct(what, fmt.Sprint(ks))
}

// p21Long sorts long arrays, which sort.Sort treats differently from short ones
func p21Long(c *Case) {
	r := c.R
	n := 20 + r.Intn(3000)
	if c.Index%40 == 0 {
		n = sizeFor(c, 70000)
	}
	t := rArr()
	for i := 0; i < n; i++ {
		switch r.Intn(4) {
		case 0:
			t.A = append(t.A, genScalar(r, &genCfg{}))
		case 1:
			t.A = append(t.A, rNum(itoa(r.Intn(n/4+1))))
		case 2:
			t.A = append(t.A, rArr(rNum(itoa(r.Intn(5)))))
		default:
			o := rObj()
			o.set("k", rNum(itoa(i)))
			t.A = append(t.A, o)
		}
	}
	c.Note("%d elements", n)
	v := buildV(r, t, r.Intn(2))
	for k := 0; k < 3; k++ {
		p21Sort(c, v, v, t, t)
	}
	c.Hit("long_arrays")
}

// p21Small: every array of up to six elements over four numbers
func p21Small(c *Case) {
	w := nthWord(c.Index, []string{"0", "1", "2", "3"})
	t := rArr()
	for _, b := range w {
		t.A = append(t.A, rNum(string(b)))
	}
	c.Note("%s", w)
	v := buildV(c.R, t, c.R.Intn(3))
	less := func(x, y *jv.V) bool { return x.Int() < y.Int() }
	if c.Index%2 == 1 {
		less = func(x, y *jv.V) bool { return y.LessThan(x) }
	}
	v.SortArray(less)
	want := strings.Split(string(w), "")
	if c.Index%2 == 1 {
		sort.Sort(sort.Reverse(sort.StringSlice(want)))
	} else {
		sort.Strings(want)
	}
	s := "[" + strings.Join(want, ",") + "]"
	if len(w) == 0 {
		s = "[]"
	}
	if out := v.MustMarshalString(); out != s {
		c.Fail("sorted: %s, want %s", out, s)
	}
	c.Eval(1)
	c.Distinct(c.Index)
}

// p21Others: what is no array, or no function
func p21Others(c *Case) {
	r := c.R
	g := &genCfg{maxDepth: 2, maxKids: 4}
	t := genTree(r, g, 0)
	v := buildV(r, t, r.Intn(3))
	c.Note("%s", trunc(t.canonSeq(), 1000))
	check := func(v *jv.V, t *RV) {
		before := pointers(v)
		v.SortArray(nil)
		c.Hit("nil_function")
		if v.ValueType() != jv.Array {
			v.SortArray(func(x, y *jv.V) bool {
				c.Fail("the less function is called for a %v", v.ValueType())
				return false
			})
			c.Hit("not_arrays")
		}
		if t != nil {
			if d := diffV(v, t); d != "" {
				c.Fail("SortArray that should do nothing: %s", d)
			}
		}
		if !samePointers(pointers(v), before) {
			c.Fail("SortArray that should do nothing moved nodes")
		}
		c.Eval(1)
	}
	check(v, t)
	check(&jv.V{}, nil)
	bad, _ := jv.Unmarshal([]byte("[1,"))
	check(bad, nil)
	if bad.ValueType() != jv.NotExist {
		c.Fail("not a NotExist value")
	}
}
