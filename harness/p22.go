package main

import (
	"encoding/json"
	"math"
	"math/rand"
	"strconv"

	jv "github.com/Andrew-M-C/go.jsonvalue"
	"github.com/Andrew-M-C/go.jsonvalue/beta"
)

func init() {
	register(&Prop{
		ID: "P22",
		Rule: "random documents, with sub-documents derived from them by dropping members and cutting runs, by one change, or independent, given as values and as Go values, with and without paths, plus every pair of short arrays over a small alphabet, " +
			"against a direct implementation of the definition; both arguments are compared before and after; non-trivial: distinct pairs",
		Need: []string{"included", "not_included", "derived_included", "changed_leaf", "array_runs", "partial_runs", "with_path", "missing_path", "go_values", "unsupported_go_values", "nothing_at_nowhere", "type_mismatch", "empty_arrays", "nested_runs"},
		Suites: []Suite{
			{Name: "derived", Quick: 400000, Thorough: 4000000, Run: p22Derived},
			{Name: "sizes", Quick: 56, Thorough: 2000, Run: p22Sized},
			{Name: "random", Quick: 500000, Thorough: 10000000, Run: p22Random},
			{Name: "arrays", Quick: 127 * 63, Thorough: 127 * 63, Run: p22Arrays},
			{Name: "runs", Quick: 300000, Thorough: 2000000, Run: p22Runs},
			{Name: "life", Quick: 2500, Thorough: 60000, Run: lifeRun(genCfg{nulls: 2}, readContains)},
		},
	})
}

// refContains is the definition
func refContains(v, sub *RV) bool {
	if v.K != sub.K {
		return false
	}
	switch v.K {
	case kObj:
		for k, x := range sub.O {
			y, ok := v.O[k]
			if !ok || !refContains(y, x) {
				return false
			}
		}
		return true
	case kArr:
		n := len(sub.A)
	next:
		for i := 0; i+n <= len(v.A); i++ {
			for j, x := range sub.A {
				if !p14Eq(v.A[i+j], x) {
					continue next
				}
			}
			return true
		}
		return false
	}
	return p14Eq(v, sub)
}

// goOf gives the value as Go data that Import turns into it
func goOf(r *rand.Rand, t *RV) any {
	switch t.K {
	case kNull:
		return nil
	case kBool:
		return t.B
	case kStr:
		if r.Intn(4) == 0 {
			return namedStr(t.S)
		}
		return t.S
	case kNum:
		if i, err := strconv.ParseInt(t.N, 10, 64); err == nil && strconv.FormatInt(i, 10) == t.N {
			switch {
			case r.Intn(3) == 0:
				return i
			case i == int64(int8(i)):
				return int8(i)
			case i >= 0:
				return uint64(i)
			}
			return int(i)
		}
		if f, err := strconv.ParseFloat(t.N, 64); err == nil && r.Intn(2) == 0 {
			if b, _ := json.Marshal(f); exactCmp(string(b), t.N) == 0 {
				return f
			}
		}
		return json.Number(t.N)
	case kArr:
		a := make([]any, len(t.A))
		for i, x := range t.A {
			a[i] = goOf(r, x)
		}
		return a
	}
	if r.Intn(5) == 0 {
		return json.RawMessage(renderPlain(t))
	}
	m := map[string]any{}
	for k, x := range t.O {
		m[k] = goOf(r, x)
	}
	return m
}

// p22Check calls Contains in one of its spellings and compares with the definition
func p22Check(c *Case, v *jv.V, t *RV, sub *RV) {
	r := c.R
	var path []param
	target := t
	e := eNone
	if r.Intn(3) == 0 {
		h := &Hist{c: c, v: v, m: t, bad: 25, g: &genCfg{keys: smallKeys}}
		path = h.path(t, 4)
		if len(path) > 0 {
			target, e = mGet(t, path)
			if e == eNone && r.Intn(2) == 0 {
				sub = derivePart(r, target)
			}
		}
	}
	want := e == eNone && refContains(target, sub)
	var arg any
	var sv *jv.V
	if r.Intn(3) == 0 {
		arg = goOf(r, sub)
		c.Hit("go_values")
	} else {
		sv = buildV(r, sub, r.Intn(3))
		arg = sv
	}
	before := pointers(v)
	c.Note("Contains(%s, %s as %T, %s)", trunc(t.canonSeq(), 1500), trunc(sub.canonSeq(), 1500), arg, paramsString(path))
	var got bool
	if len(path) == 0 {
		got = beta.Contains(v, arg)
	} else {
		c.Hit("with_path")
		if e != eNone {
			c.Hit("missing_path")
		}
		first, rest, how := spell(r, path)
		if how == "list" {
			got = beta.Contains(v, arg, append([]any{first}, rest...)...)
		} else {
			got = beta.Contains(v, arg, first)
		}
	}
	c.Eval(1)
	if got != want {
		c.Fail("Contains gives %v, want %v", got, want)
	}
	if d := diffV(v, t); d != "" {
		c.Fail("Contains changed its first argument: %s", d)
	}
	if !samePointers(pointers(v), before) {
		c.Fail("Contains changed the nodes of its first argument")
	}
	if sv != nil {
		if d := diffV(sv, sub); d != "" {
			c.Fail("Contains changed its second argument: %s", d)
		}
	}
	if want {
		c.Hit("included")
	} else {
		c.Hit("not_included")
	}
	if e == eNone && target.K != sub.K {
		c.Hit("type_mismatch")
	}
	c.Distinct(t.canon(), sub.canon(), paramsString(path))
}

// derivePart takes a part of t which it includes
func derivePart(r *rand.Rand, t *RV) *RV {
	switch t.K {
	case kObj:
		n := rObj()
		for _, i := range r.Perm(len(t.Keys)) {
			if k := t.Keys[i]; r.Intn(3) != 0 {
				n.set(k, derivePart(r, t.O[k]))
			}
		}
		return n
	case kArr:
		n := &RV{K: kArr}
		if len(t.A) == 0 {
			return n
		}
		i := r.Intn(len(t.A) + 1)
		j := i + r.Intn(len(t.A)-i+1)
		for _, x := range t.A[i:j] {
			n.A = append(n.A, p14Respell(r, x))
		}
		return n
	}
	return p14Respell(r, t)
}

func p22Tree(c *Case) *RV {
	r := c.R
	g := &genCfg{maxDepth: 1 + r.Intn(4), maxKids: 1 + r.Intn(5)}
	if r.Intn(2) == 0 {
		g.keys = smallKeys
	}
	t := genTree(r, g, 0)
	if r.Intn(4) != 0 {
		t = genDoc(r, g)
	}
	limitExp(r, t)
	return t
}

func p22Derived(c *Case) {
	r := c.R
	t := p22Tree(c)
	v := buildV(r, t, r.Intn(3))
	sub := derivePart(r, t)
	if !refContains(t, sub) {
		fatalf("derived part is not included: %s %s", t.canon(), sub.canon())
	}
	c.Hit("derived_included")
	for _, x := range nodes(sub, nil) {
		if x.K == kArr {
			if len(x.A) == 0 {
				c.Hit("empty_arrays")
			} else if x != sub {
				c.Hit("nested_runs")
			}
		}
	}
	p22Check(c, v, t, sub)
	p22Check(c, v, t, t)
	for i := 0; i < 2; i++ {
		x, _ := change(r, sub)
		p22Check(c, v, t, x)
		c.Hit("changed_leaf")
	}
	if c.Index < 6 {
		c.Sample("%s in %s", trunc(sub.canon(), 200), trunc(t.canon(), 200))
	}
	// what cannot be imported is never included
	for _, x := range []any{make(chan int), func() {}, complex(1, 2), map[string]any{"a": make(chan int)}, []any{func() {}}, math.NaN(), math.Inf(1), map[bool]int{true: 1}} {
		switch x.(type) {
		case float64:
			continue
		}
		if beta.Contains(v, x) {
			c.Fail("Contains(%s, %T) is true", trunc(t.canon(), 500), x)
		}
		c.Hit("unsupported_go_values")
	}
	// nor is there anything at a path that does not exist, not even nothing
	missing := [][]any{{"no such key at all"}, {len(t.A) + r.Intn(3)}, {-len(t.A) - 1 - r.Intn(3)}, {1.5}, {true}, {nil}, {"no such key at all", 0}, {len(t.A) + 5, "a"}, {[]any{len(t.A) + 1}}}
	for _, x := range []any{&jv.V{}, jv.V{}, (*jv.V)(nil), make(chan int), complex(1, 2), buildV(r, sub, 0), jv.NewNull(), jv.NewObject(), jv.NewArray()} {
		path := missing[r.Intn(len(missing))]
		if _, err := v.Get(path[0], path[1:]...); err == nil {
			fatalf("%v exists in %s", path, t.canon())
		}
		if beta.Contains(v, x, path...) {
			c.Fail("Contains(%s, %T %v, %v) is true", trunc(t.canon(), 500), x, x, path)
		}
		c.Hit("nothing_at_nowhere")
	}
	if beta.Contains(nil, sub.goValue()) || beta.Contains(nil, buildV(r, sub, 0), "a") {
		c.Fail("nil contains something")
	}
}

// p22Random: independent pairs over a tiny alphabet
func p22Random(c *Case) {
	r := c.R
	var gen func(d int) *RV
	gen = func(d int) *RV {
		n := r.Intn(7)
		if d >= 3 && n > 3 {
			n = r.Intn(4)
		}
		switch n {
		case 0:
			return rNum([]string{"1", "2", "1.0", "10e-1"}[r.Intn(4)])
		case 1:
			return rStr([]string{"1", "", "a"}[r.Intn(3)])
		case 2:
			return []*RV{rNull(), rBool(true), rBool(false)}[r.Intn(3)]
		case 3, 4:
			a := rArr()
			for k := r.Intn(5); k > 0; k-- {
				a.A = append(a.A, gen(d+1))
			}
			return a
		}
		o := rObj()
		for k := r.Intn(4); k > 0; k-- {
			o.set([]string{"a", "b", "A", ""}[r.Intn(4)], gen(d+1))
		}
		return o
	}
	t, sub := gen(0), gen(0)
	if r.Intn(2) == 0 {
		// an object or array for sure
		for !t.isCont() {
			t = gen(0)
		}
		for sub.K != t.K {
			sub = gen(0)
		}
	}
	v := buildV(r, t, r.Intn(3))
	p22Check(c, v, t, sub)
	p22Check(c, v, t, t)
	if r.Intn(3) == 0 {
		p22Check(c, buildV(r, sub, 0), sub, t)
	}
}

func bitArray(w []byte) *RV {
	a := rArr()
	for _, b := range w {
		if b == 'x' {
			a.A = append(a.A, rNum("1"))
		} else {
			a.A = append(a.A, rArr(rNum("1")))
		}
	}
	return a
}

// p22Arrays: every pair of an array of up to six and one of up to five elements over two symbols
func p22Arrays(c *Case) {
	syms := []string{"x", "y"}
	t, sub := bitArray(nthWord(c.Index%127, syms)), bitArray(nthWord(c.Index/127, syms))
	v := buildV(c.R, t, c.R.Intn(3))
	s := buildV(c.R, sub, c.R.Intn(3))
	c.Note("Contains(%s, %s)", t.canon(), sub.canon())
	want := refContains(t, sub)
	if got := beta.Contains(v, s); got != want {
		c.Fail("Contains gives %v, want %v", got, want)
	}
	o, so := jv.NewObject(), jv.NewObject()
	o.MustSet(v).At("k", "l")
	so.MustSet(s).At("l")
	if got := beta.Contains(o, so, "k"); got != want {
		c.Fail("nested: Contains gives %v, want %v", got, want)
	}
	c.Eval(2)
	c.Hit("array_runs")
	c.Distinct(c.Index)
}

// p22Runs: long arrays with near misses before and after the run
func p22Runs(c *Case) {
	r := c.R
	n := 1 + r.Intn(40)
	t := rArr()
	for i := 0; i < n; i++ {
		if r.Intn(6) == 0 {
			t.A = append(t.A, genScalar(r, &genCfg{}))
		} else {
			t.A = append(t.A, rNum(itoa(r.Intn(2))))
		}
	}
	limitExp(r, t)
	i := r.Intn(n)
	j := i + 1 + r.Intn(n-i)
	sub := rArr()
	for _, x := range t.A[i:j] {
		sub.A = append(sub.A, x.clone())
	}
	// a partial match in front of the real one
	if len(sub.A) > 1 && r.Intn(2) == 0 {
		var pre []*RV
		for k := 1 + r.Intn(3); k > 0; k-- {
			for _, x := range sub.A[:1+r.Intn(len(sub.A)-1)] {
				pre = append(pre, x.clone())
			}
		}
		t.A = append(pre, t.A...)
		c.Hit("partial_runs")
	}
	if r.Intn(3) == 0 {
		sub.A[r.Intn(len(sub.A))] = rStr("no")
	}
	v := buildV(r, t, r.Intn(3))
	s := buildV(r, sub, r.Intn(3))
	c.Note("Contains(%s, %s)", trunc(t.canon(), 1500), trunc(sub.canon(), 1500))
	if got, want := beta.Contains(v, s), refContains(t, sub); got != want {
		c.Fail("Contains gives %v, want %v", got, want)
	}
	c.Eval(1)
	c.Distinct(t.canon(), sub.canon())
}

// p22Sized: large documents, and parts of them: runs from the beginning, the middle and the end of long arrays
func p22Sized(c *Case) {
	r := c.R
	t, shape := sizedTree(r, &genCfg{}, sizeFor(c, 70000))
	limitExp(r, t)
	v := buildV(r, t, r.Intn(3))
	c.Note("%s: %s", shape, trunc(t.canonSeq(), 1000))
	var part func(t *RV) *RV
	part = func(t *RV) *RV {
		switch t.K {
		case kObj:
			n := rObj()
			all := r.Intn(3) == 0
			for _, i := range r.Perm(len(t.Keys)) {
				if k := t.Keys[i]; all || len(n.Keys) < 40 && r.Intn(3) != 0 {
					n.set(k, part(t.O[k]))
				}
			}
			return n
		case kArr:
			n := rArr()
			l := len(t.A)
			w := min(l, r.Intn(20))
			i := []int{0, l - w, r.Intn(l - w + 1)}[r.Intn(3)]
			for _, x := range t.A[i : i+w] {
				n.A = append(n.A, p14Respell(r, x))
			}
			return n
		}
		return p14Respell(r, t)
	}
	for k := 0; k < 5; k++ {
		sub := part(t)
		if !refContains(t, sub) {
			fatalf("derived part is not included: %s %s", trunc(t.canon(), 500), trunc(sub.canon(), 500))
		}
		p22Check(c, v, t, sub)
		x, _ := change(r, sub)
		p22Check(c, v, t, x)
	}
	c.Hit("sized_" + shape)
}
