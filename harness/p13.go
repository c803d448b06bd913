package main

import (
	"fmt"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	jv "github.com/Andrew-M-C/go.jsonvalue"
)

func init() {
	register(&Prop{
		ID: "P13",
		Rule: "every iteration form over containers of all sizes, parsed, built and edited, with random stopping points and abandoned channels: each member once with its own key, index and node, callbacks counted after a stop, " +
			"goroutines counted at quiescence; non-trivial: distinct (container, form, stopping point)",
		Need: []string{"stopped_early", "full", "abandoned_channels", "set_sequence", "wrong_type", "leak_checks", "independent_collections", "edited", "nil_callback", "caseless_first", "aged", "inside_callbacks", "left_by_panic", "replaced_inside"},
		Suites: []Suite{
			{Name: "random", Quick: 600000, Thorough: 600000, Run: p13Random},
			{Name: "sizes", Quick: 1500, Thorough: 10000, Run: p13Sizes},
			{Name: "huge", Quick: 48, Thorough: 1000, Run: p13Huge},
			{Name: "aged", Quick: 24, Thorough: 400, Run: p13Aged},
			{Name: "leaks", Quick: 27, Thorough: 60, Run: p13Leaks, Solo: true},
			{Name: "life", Quick: 6000, Thorough: 90000, Run: lifeRun(genCfg{nulls: 2}, readIteration, readOneForm, readOneForm)},
		},
	})
}

// p13One checks every iteration form on one container. ptr gives the nodes by key or index.
func p13One(c *Case, v *jv.V, t *RV) {
	r := c.R
	n := len(t.A) + len(t.Keys)
	// the nodes, one by one
	node := map[string]*jv.V{}
	for i := range t.A {
		node[strconv.Itoa(i)] = v.MustGet(i)
	}
	for _, k := range t.Keys {
		node["."+k] = v.MustGet(k)
	}
	stops := []int{n + 1, 0, r.Intn(n + 1)}
	every := 0 // the callback itself uses the library, every so many calls
	if r.Intn(40) == 0 {
		every = 1 + r.Intn(n+1)
	}
	throwAt := -1 // or leaves by a panic
	if r.Intn(60) == 0 {
		throwAt = 1 + r.Intn(n+1)
	}
	inside := func(calls int, x *jv.V) {
		if calls == throwAt {
			throwAt = -1
			c.Hit("left_by_panic")
			panic(errThrown{calls})
		}
		if every > 0 && calls%every == 0 {
			c.meddle(v, x)
		}
	}
	for _, stop := range stops {
		for form := 0; form < 3; form++ {
			seen := map[string]int{}
			var order []string
			calls := 0
			obj := func(k string, x *jv.V) bool {
				calls++
				if calls > stop+1 {
					c.Fail("form %d: the callback is called again after it said stop", form)
				}
				want, ok := node["."+k]
				if !ok || want != x {
					c.Fail("form %d: key %q comes with the wrong node", form, k)
				}
				inside(calls, x)
				seen[k]++
				order = append(order, k)
				return calls <= stop
			}
			arr := func(i int, x *jv.V) bool {
				calls++
				if calls > stop+1 {
					c.Fail("form %d: the callback is called again after it said stop", form)
				}
				if i != calls-1 {
					c.Fail("RangeArray gives index %d at step %d", i, calls-1)
				}
				if node[strconv.Itoa(i)] != x || x == nil {
					c.Fail("RangeArray gives the wrong node at %d", i)
				}
				inside(calls, x)
				return calls <= stop
			}
			pass := func() {
				switch form {
				case 0:
					v.RangeObjects(obj)
				case 1:
					v.RangeObjectsBySetSequence(obj)
				default:
					v.RangeArray(arr)
				}
			}
			if thrown(pass) { // once more, in peace
				calls, order = 0, nil
				clear(seen)
				pass()
			}
			c.Eval(1)
			want := 0
			if (t.K == kObj) == (form < 2) && t.isCont() {
				want = minInt(n, stop+1)
			}
			if calls != want {
				c.Fail("form %d visited %d members of a %s of %d, stopping after %d, want %d", form, calls, kindNames[t.K], n, stop+1, want)
			}
			for k, m := range seen {
				if m != 1 {
					c.Fail("form %d visited key %q %d times", form, k, m)
				}
			}
			if form == 1 {
				for i, k := range order {
					if t.Keys[i] != k {
						c.Fail("set sequence gives %q at step %d, want %q", k, i, t.Keys[i])
					}
				}
				c.HitN("set_sequence", len(order))
			}
			if stop < n {
				c.Hit("stopped_early")
			} else {
				c.Hit("full")
			}
			if want == 0 && n > 0 {
				c.Hit("wrong_type")
			}
		}
	}
	// a callback that replaces members, whichever it likes: there are no more of them, and no fewer
	if t.isCont() && n > 0 && n < 60 && r.Intn(4) == 0 {
		p13Replacing(c, t)
	}
	// nested and repeated iteration inside a callback
	if t.K == kObj && n > 0 && n < 30 {
		total := 0
		v.RangeObjects(func(k string, _ *jv.V) bool {
			v.RangeObjects(func(string, *jv.V) bool { total++; return true })
			v.RangeObjectsBySetSequence(func(string, *jv.V) bool { total++; return true })
			return true
		})
		if total != 2*n*n {
			c.Fail("nested iteration visited %d members, want %d", total, 2*n*n)
		}
		c.Eval(1)
	}
	// collections
	m := v.ForRangeObj()
	a := v.ForRangeArr()
	if m == nil || len(m) != len(t.Keys) || len(a) != len(t.A) {
		c.Fail("ForRangeObj gives %d members, ForRangeArr %d elements, of %d and %d", len(m), len(a), len(t.Keys), len(t.A))
	}
	for k, x := range m {
		if node["."+k] != x || x == nil {
			c.Fail("ForRangeObj gives the wrong node for %q", k)
		}
	}
	for i, x := range a {
		if node[strconv.Itoa(i)] != x || x == nil {
			c.Fail("ForRangeArr gives the wrong node at %d", i)
		}
	}
	c.Eval(2)
	{
		keptM, keptA := v.ForRangeObj(), v.ForRangeArr()
		for k := range m {
			delete(m, k)
		}
		m["intruder"] = jv.NewInt(1)
		if r.Intn(2) == 0 {
			m = nil // nobody's any more
		}
		a2 := append(a, jv.NewInt(1), jv.NewInt(2))
		for i := range a {
			a[i] = nil
			a2[i] = nil
		}
		if d := diffV(v, t); d != "" {
			c.Fail("changing the collections changed the document: %s", d)
		}
		for k, x := range map[string]map[string]*jv.V{"kept": keptM, "new": v.ForRangeObj(), "other empty": (&jv.V{}).ForRangeObj(), "scalar's": v.MustGet("no such key", 5).ForRangeObj()} {
			want := len(t.Keys)
			if k == "other empty" || k == "scalar's" {
				want = 0
			}
			if len(x) != want || x == nil {
				c.Fail("changing the map of one ForRangeObj changed the %s one: %d members, want %d", k, len(x), want)
			}
			for key, y := range x {
				if node["."+key] != y {
					c.Fail("changing the map of one ForRangeObj changed the %s one at %q", k, key)
				}
			}
			if r.Intn(2) == 0 {
				x["another intruder"] = nil
			}
		}
		for k, x := range map[string][]*jv.V{"kept": keptA, "new": v.ForRangeArr()} {
			if len(x) != len(t.A) {
				c.Fail("changing the slice of one ForRangeArr changed the %s one: %d elements, want %d", k, len(x), len(t.A))
			}
			for i, y := range x {
				if node[strconv.Itoa(i)] != y {
					c.Fail("changing the slice of one ForRangeArr changed the %s one at %d", k, i)
				}
			}
		}
		c.Hit("independent_collections")
	}
	// channels, read to the end or left alone
	stop := n + 1
	if r.Intn(2) == 0 {
		stop = r.Intn(n + 1)
	}
	got := map[string]bool{}
	oc, ac := v.IterObjects(), v.IterArray()
	cnt := 0
	if t.K == kObj || r.Intn(4) == 0 {
		for cnt < stop {
			it, ok := <-oc
			if !ok {
				break
			}
			if x := node["."+it.K]; x == nil || x != it.V || got[it.K] {
				c.Fail("IterObjects gives %q with the wrong node, or twice", it.K)
			}
			got[it.K] = true
			cnt++
		}
		if cnt != minInt(stop, len(t.Keys)) {
			c.Fail("IterObjects gives %d members of %d", cnt, len(t.Keys))
		}
		c.Eval(1)
	}
	cnt = 0
	if t.K == kArr || r.Intn(4) == 0 {
		for cnt < stop {
			it, ok := <-ac
			if !ok {
				break
			}
			if x := node[strconv.Itoa(it.I)]; it.I != cnt || x == nil || x != it.V {
				c.Fail("IterArray gives index %d at step %d, or the wrong node", it.I, cnt)
			}
			cnt++
		}
		if cnt != minInt(stop, len(t.A)) {
			c.Fail("IterArray gives %d elements of %d", cnt, len(t.A))
		}
		c.Eval(1)
	}
	if stop < n {
		c.Hit("abandoned_channels")
	}
	// without a callback nothing happens
	v.RangeArray(nil)
	v.RangeObjects(nil)
	v.RangeObjectsBySetSequence(nil)
	c.Hit("nil_callback")
	c.Distinct(t.canonSeq(), stops[2], stop)
}

// p13Replacing iterates over a copy, replacing members from inside: every one is still visited once, with a node
// that it has or had
func p13Replacing(c *Case, t *RV) {
	r := c.R
	fresh := &RV{K: kArr} // with members of its own: some numbers of t cannot be parsed back (a known finding of P04)
	if t.K == kObj {
		fresh = rObj()
	}
	for i := range t.A {
		fresh.A = append(fresh.A, numOf(i))
	}
	for i, k := range t.Keys {
		fresh.set(k, numOf(i))
	}
	t = fresh
	v := buildV(r, t, r.Intn(3))
	had := map[string][]*jv.V{}
	names := append([]string(nil), t.Keys...)
	for i := range t.A {
		names = append(names, strconv.Itoa(i))
	}
	at := func(name string) any {
		if t.K == kObj {
			return name
		}
		i, _ := strconv.Atoi(name)
		return i
	}
	now := map[string]string{}
	for _, name := range names {
		had[name] = []*jv.V{v.MustGet(at(name))}
	}
	seen := map[string]int{}
	var order []string
	visit := func(name string, x *jv.V) bool {
		seen[name]++
		order = append(order, name)
		ok := false
		for _, y := range had[name] {
			ok = ok || x == y
		}
		if !ok {
			c.Fail("%q comes with a node it never had", name)
		}
		for k := r.Intn(3); k > 0; k-- {
			at2 := names[r.Intn(len(names))]
			if r.Intn(3) == 0 {
				at2 = name
			}
			s := fmt.Sprintf("new %d", r.Int())
			y, err := v.SetString(s).At(at(at2))
			if err != nil {
				c.Fail("Set(%q) inside a callback: %v", at2, err)
			}
			had[at2] = append(had[at2], y, v.MustGet(at(at2)))
			now[at2] = s
		}
		return true
	}
	form := 2
	if t.K == kArr {
		v.RangeArray(func(i int, x *jv.V) bool { return visit(strconv.Itoa(i), x) })
	} else if form = r.Intn(2); form == 0 {
		v.RangeObjects(visit)
	} else {
		v.RangeObjectsBySetSequence(visit)
	}
	c.Note("form %d, replacing members of %s inside", form, trunc(t.canonSeq(), 500))
	for _, name := range names {
		if seen[name] != 1 {
			c.Fail("%q is visited %d times", name, seen[name])
		}
		if s, ok := now[name]; ok && v.MustGet(at(name)).String() != s {
			c.Fail("%q is not what was set last", name)
		}
	}
	if len(order) != len(names) || v.Len() != len(names) {
		c.Fail("%d members visited of %d, %d afterwards", len(order), len(names), v.Len())
	}
	if form == 1 { // the order as it was when it began
		for i := range order {
			if order[i] != t.Keys[i] {
				c.Fail("set sequence gives %q at step %d, want %q", order[i], i, t.Keys[i])
			}
		}
	}
	c.Eval(1)
	c.Hit("replaced_inside")
}

func p13Random(c *Case) {
	g := histCfg(c)
	if c.R.Intn(4) == 0 {
		g.keys = append([]string{"", "a", "A", "Key", "key", "É", "é"}, g.keys...)
	}
	m := contTree(c, g)
	h := newHist(c, g, m, c.R.Intn(3))
	h.bad = 0
	p13All(c, h)
	if c.R.Intn(2) == 0 {
		for n := c.R.Intn(10); n > 0; n-- {
			h.edit([6]int{4, 1, 1, 1, 1, 4})
			h.verify(true)
		}
		c.Hit("edited")
		p13All(c, h)
	}
	if c.Index < 8 {
		c.Sample("%s; %s", trunc(h.init, 200), trunc(strings.Join(h.log, "; "), 200))
	}
}

func p13All(c *Case, h *Hist) {
	for _, x := range nodes(h.m, nil) {
		if x.K == kObj && c.R.Intn(2) == 0 { // a caseless look first
			k := "no such key"
			if len(x.Keys) > 0 && c.R.Intn(2) == 0 {
				k = recase(c, x.Keys[c.R.Intn(len(x.Keys))])
			}
			_, _ = h.ptr[x].Caseless().Get(k)
			c.Hit("caseless_first")
		}
		p13One(c, h.ptr[x], x)
	}
}

// p13Aged: objects with a long history
func p13Aged(c *Case) {
	g := &genCfg{maxDepth: 1, maxKids: 5, keys: []string{"a", "b", "c", "d", "e", "f", "g", "h"}}
	m := contTree(c, g)
	if m.K != kObj {
		m = rObj()
		m.set("a", rNull())
	}
	h := newHist(c, g, m, c.R.Intn(3))
	h.bad = 0
	n := []int{1 << 8, 1 << 15, 1 << 16, 1 << 16, 1 << 16, 3 << 15}[c.R.Intn(6)] - c.R.Intn(20)
	h.age(h.m, n, "h")
	if c.R.Intn(2) == 0 {
		h.one(5, []param{strParam(nil, "h")})
	}
	for i := 0; i < 30; i++ {
		h.edit([6]int{6, 0, 0, 0, 0, 2})
		h.verify(true)
	}
	p13All(c, h)
}

// p13Sizes: larger containers
func p13Sizes(c *Case) {
	n := c.Index
	if n > 300 {
		n = c.R.Intn(5000)
	}
	t := &RV{K: kArr}
	if c.R.Intn(2) == 0 {
		t = rObj()
	}
	c.Note("%s of %d", kindNames[t.K], n)
	for i := 0; i < n; i++ {
		if t.K == kArr {
			t.A = append(t.A, numOf(i))
		} else {
			t.set(fmt.Sprintf("k%d", c.R.Intn(n*4)), numOf(i))
		}
	}
	v := buildV(c.R, t, c.R.Intn(3))
	if t.K == kObj { // set some keys again: they move to the end
		for i := 0; i < len(t.Keys)/3; i++ {
			k := t.Keys[c.R.Intn(len(t.Keys))]
			x := numOf(-i)
			t.set(k, x)
			v.MustSetInt(-i).At(k)
		}
		if !sort.StringsAreSorted(t.Keys) {
			c.Hit("edited")
		}
	}
	p13One(c, v, t)
}

// p13Huge: documents of many sizes
func p13Huge(c *Case) {
	t, shape := sizedTree(c.R, &genCfg{}, sizeFor(c, 70000))
	c.Note("%s: %s", shape, trunc(t.canonSeq(), 1000))
	v := buildV(c.R, t, c.R.Intn(3))
	p13One(c, v, t)
	if shape == "columns" {
		for _, k := range t.Keys {
			p13One(c, v.MustGet(k), t.O[k])
		}
	}
	c.Hit("sized_" + shape)
}

// p13Leaks abandons many iterations and counts goroutines when all is quiet
func p13Leaks(c *Case) {
	n := []int{1, 2, 10, 100, 1000, 3, 7, 50, 66000}[c.Index%9]
	times := 200
	if n == 66000 {
		n = ladder[c.R.Intn(len(ladder)-10)+10]
		times = 10
	}
	o, a := jv.NewObject(), jv.NewArray()
	for i := 0; i < n; i++ {
		o.MustSetInt(i).At(strconv.Itoa(i))
		a.MustAppendInt(i).InTheEnd()
	}
	quiet := func() int {
		m := 0
		for i := 0; i < 200; i++ {
			runtime.Gosched()
			m = runtime.NumGoroutine()
			if i > 3 {
				time.Sleep(time.Millisecond)
			}
			if i > 20 {
				break
			}
		}
		return m
	}
	base := quiet()
	c.Note("containers of %d, %d abandoned iterations of every form, %d goroutines before", n, times, base)
	for i := 0; i < times; i++ {
		oc, ac := o.IterObjects(), a.IterArray()
		for k := c.R.Intn(n + 1); k > 0; k-- {
			<-oc
			<-ac
		}
		_ = jv.NewInt(1).IterArray()
		_ = jv.NewInt(1).IterObjects()
		_ = (&jv.V{}).IterObjects()
		o.RangeObjects(func(string, *jv.V) bool { return false })
		a.RangeArray(func(int, *jv.V) bool { return false })
		o.RangeObjectsBySetSequence(func(string, *jv.V) bool { return false })
		c.Eval(7)
	}
	after := quiet()
	for i := 0; after > base && i < 100; i++ { // give a slow machine time
		time.Sleep(20 * time.Millisecond)
		after = runtime.NumGoroutine()
	}
	if after > base {
		c.Fail("%d goroutines before, %d after %d abandoned iterations", base, after, times)
	}
	c.Hit("leak_checks")
	c.Distinct("leak", n)
}
