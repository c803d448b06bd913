package main

import (
	"fmt"
	"math/rand"
	"strings"

	jv "github.com/Andrew-M-C/go.jsonvalue"
)

func init() {
	register(&Prop{
		ID: "P09",
		Rule: "random edit histories (Set, Append, Insert, Delete, sort; typed, Must, At-first and slice spellings; through the root, inner nodes and detached nodes) in lock step with a model of JSON trees: " +
			"document, node identity, error class and returned node after every step; non-trivial: distinct (history prefix) states reached by successful edits",
		Need: []string{"held_completed", "held_again", "place_again", "placed_again", "ok_Set", "ok_Append.End", "ok_Append.Beginning", "ok_Insert.Before", "ok_Insert.After", "ok_Delete", "sorted", "detached", "reattached", "long_histories", "tides", "big_documents", "observed_between_edits", "rejected_ErrNotFound", "rejected_ErrOutOfRange", "grid"},
		Suites: []Suite{
			{Name: "histories", Quick: 72000, Thorough: 1500000, Run: p09Histories},
			{Name: "long", Quick: 180, Thorough: 3000, Run: p09Long},
			{Name: "big", Quick: 1600, Thorough: 40000, Run: p09Big},
			{Name: "twice", Quick: 60000, Thorough: 400000, Run: p09Twice},
			{Name: "sizes", Quick: 64, Thorough: 1000, Run: func(c *Case) {
				c.big = 70000
				g := &genCfg{maxDepth: 2, maxKids: 3, keys: []string{"first", "second", "third", "id", "k1", "a"}}
				h := newHist(c, g, contTree(c, g), c.R.Intn(3))
				for n := 12; n > 0; n-- {
					if h.edit([6]int{3, 2, 2, 3, 3, 5}) || n == 1 {
						h.verify(true)
					}
				}
				c.Distinct("sized", c.Index)
			}},
			{Name: "tides", Quick: 400, Thorough: 8000, Run: p09Tides},
			{Name: "arrays", Quick: 18000, Thorough: 300000, Run: p09Arrays},
			{Name: "grid", Quick: 7200, Thorough: 60000, Run: p09Grid},
			{Name: "life", Quick: 6000, Thorough: 90000, Run: lifeRun(genCfg{nulls: 2}, readWalk, readOneForm, readPaths(false), readMarshal(0))},
		},
	})
}

func (h *Hist) steps(n int, ops [6]int, sortOdds int, order bool) {
	for i := 0; i < n; i++ {
		if sortOdds > 0 && h.c.R.Intn(sortOdds) == 0 {
			h.sortSome()
		} else {
			h.edit(ops)
		}
		if h.c.R.Intn(2) == 0 {
			h.observe()
		}
		h.verify(order)
		if h.c.R.Intn(2) == 0 {
			h.observe()
		}
		if len(h.log) > 0 {
			h.c.Distinct(h.m.canonSeq(), h.log[len(h.log)-1])
		}
		if h.m.size() > 400 { // keep documents small: trim one member of the root
			h.trim()
		}
	}
}

// trim empties the root
func (h *Hist) trim() {
	for h.m.K == kArr && len(h.m.A) > 0 {
		if err := h.v.Delete(-1); err != nil {
			h.fail("Delete(-1): %v", err)
		}
		h.m.A = h.m.A[:len(h.m.A)-1]
	}
	for h.m.K == kObj && len(h.m.Keys) > 0 {
		k := h.m.Keys[0]
		if err := h.v.Delete(k); err != nil {
			h.fail("Delete(%q): %v", k, err)
		}
		h.m.del(k)
	}
	h.log = append(h.log, "root emptied")
	h.verify(true)
}

// smallKeys makes keys collide often
var smallKeys = []string{"a", "b", "c", "d", "A", "", "key", "é", "0"}

func histCfg(c *Case) *genCfg {
	g := &genCfg{maxDepth: c.R.Intn(4), maxKids: 1 + c.R.Intn(4), nulls: c.R.Intn(4)}
	if c.R.Intn(4) != 0 {
		g.keys = smallKeys[:2+c.R.Intn(len(smallKeys)-1)]
	}
	return g
}

func contTree(c *Case, g *genCfg) *RV {
	if c.big > 0 {
		for {
			if m, shape := sizedTree(c.R, g, sizeFor(c, c.big)); m.isCont() {
				c.Hit("sized_" + shape)
				return m
			}
		}
	}
	if c.R.Intn(12) == 0 {
		c.Hit("deep_documents")
		return deepChain(c.R, g, 4+c.R.Intn(12))
	}
	for {
		m := genTree(c.R, g, 0)
		if m.isCont() || c.R.Intn(20) == 0 {
			return m
		}
	}
}

// deepChain makes a document that goes down many levels, with little beside
func deepChain(r *rand.Rand, g *genCfg, depth int) *RV {
	t := genTree(r, &genCfg{maxDepth: 1, maxKids: 2, nulls: g.nulls, keys: g.keys, nonFinite: g.nonFinite}, 0)
	for ; depth > 0; depth-- {
		pre, post := r.Intn(3)/2, r.Intn(3)/2
		if r.Intn(3) == 0 {
			a := rArr()
			for ; pre > 0; pre-- {
				a.A = append(a.A, genScalar(r, g))
			}
			a.A = append(a.A, t)
			for ; post > 0; post-- {
				a.A = append(a.A, genScalar(r, g))
			}
			t = a
			continue
		}
		o := rObj()
		if pre > 0 {
			o.set(genKey(r, g), genScalar(r, g))
		}
		o.set(genKey(r, g), t)
		if post > 0 {
			if k := genKey(r, g); o.O[k] == nil {
				o.set(k, genScalar(r, g))
			}
		}
		t = o
	}
	return t
}

// height is the number of levels of containers, up to max
func (t *RV) height(max int) int {
	if !t.isCont() || max == 0 {
		return 0
	}
	n := 0
	for i, x := range t.A {
		if i < 8 {
			if d := x.height(max - 1); d > n {
				n = d
			}
		}
	}
	for i, k := range t.Keys {
		if i < 8 {
			if d := t.O[k].height(max - 1); d > n {
				n = d
			}
		}
	}
	return n + 1
}

func p09Histories(c *Case) {
	g := histCfg(c)
	h := newHist(c, g, contTree(c, g), c.R.Intn(3))
	h.bad = []int{0, 3, 10}[c.R.Intn(3)]
	h.steps(1+c.R.Intn(30), [6]int{5, 2, 2, 2, 2, 3}, 15, false)
	// the history shows in the output too
	if b, err := h.v.Marshal(); err != nil {
		h.fail("marshalling the final document: %v", err)
	} else if p := refParse(b, false); !p.ok {
		h.fail("the final document marshals to invalid JSON %q", trunc(string(b), 500))
	} else if d := diffOut(p.v, h.m, false, "$"); d != "" {
		h.fail("marshalled final document: %s", d)
	}
	c.Eval(1)
	if c.Index < 8 {
		c.Sample("%s; %s", trunc(h.init, 100), trunc(fmt.Sprint(h.log), 400))
	}
}

func p09Long(c *Case) {
	g := histCfg(c)
	g.maxDepth = 1
	m := rObj()
	if c.R.Intn(2) == 0 {
		m = &RV{K: kArr}
	}
	h := newHist(c, g, m, c.R.Intn(3))
	h.bad = 3
	h.steps(1000+c.R.Intn(1000), [6]int{5, 2, 1, 2, 2, 4}, 40, false)
	c.Hit("long_histories")
}

// p09Big: documents of some kilobytes, with wide nodes and long strings, read and written in turns
func p09Big(c *Case) {
	r := c.R
	g := &genCfg{maxDepth: 2, maxKids: 4, nulls: 2}
	m := genWide(r, g, 0)
	for k := r.Intn(3); k > 0; k-- {
		x := genWide(r, g, 1)
		if m.K == kArr {
			mInsertAt(m, r.Intn(len(m.A)+1), x)
		} else {
			m.set(genKey(r, g), x)
		}
	}
	if m.K == kArr && r.Intn(2) == 0 { // elements to edit in
		for i := range m.A {
			if r.Intn(4) == 0 {
				o := rObj()
				o.set("id", numOf(i))
				o.set("text", rStr(strings.Repeat(genString(r), r.Intn(6))))
				m.A[i] = o
			}
		}
	}
	if r.Intn(3) == 0 {
		long := rStr(strings.Repeat(genString(r)+"~", 1+r.Intn(3000)))
		if m.K == kArr {
			m.A[r.Intn(len(m.A))] = long
		} else {
			m.set("long", long)
		}
	}
	h := newHist(c, g, m, r.Intn(3))
	h.bad = 2
	h.observe()
	for i := 8 + r.Intn(24); i > 0; i-- {
		if r.Intn(8) == 0 {
			h.sortSome()
		} else {
			h.edit([6]int{5, 2, 1, 2, 2, 3})
		}
		for k := r.Intn(4); k > 0; k-- {
			h.observe()
		}
		h.verify(r.Intn(2) == 0)
		for k := r.Intn(3); k > 0; k-- {
			h.observe()
		}
	}
	h.verify(true)
	c.Hit("big_documents")
	c.Distinct(h.m.canonSeq())
}

// p09Arrays: histories on one array, whose elements are told apart
func p09Arrays(c *Case) {
	n := c.R.Intn(20)
	m := &RV{K: kArr}
	for i := 0; i < n; i++ {
		m.A = append(m.A, numOf(i))
	}
	g := &genCfg{maxDepth: 1, maxKids: 2, keys: smallKeys}
	if c.R.Intn(2) == 0 {
		o := rObj()
		o.set("a", m)
		m = o
	}
	h := newHist(c, g, m, c.R.Intn(3))
	h.bad = 0
	h.steps(5+c.R.Intn(40), [6]int{2, 3, 3, 5, 5, 5}, 20, false)
}

// p09Grid: one edit of every kind at every index around the ends of arrays of every small length
func p09Grid(c *Case) {
	i := c.Index
	n := i % 6
	i /= 6
	nested := i % 4 // path prefix in front of the array
	i /= 4
	idx := i%(2*n+7) - n - 3
	h := &Hist{}
	for op := 0; op < 6; op++ {
		for tail := 0; tail < 3; tail++ {
			m := &RV{K: kArr}
			for k := 0; k < n; k++ {
				switch tail {
				case 0:
					m.A = append(m.A, numOf(k))
				case 1:
					o := rObj()
					o.set("k", numOf(k))
					m.A = append(m.A, o)
				default:
					m.A = append(m.A, rArr(numOf(k)))
				}
			}
			var ps []param
			switch nested {
			case 1:
				o := rObj()
				o.set("a", m)
				m = o
				ps = append(ps, strParam(c.R, "a"))
			case 2:
				m = rArr(rNull(), m)
				ps = append(ps, intParam(c.R, 1))
			case 3:
				o := rObj()
				o.set("b", rArr(m))
				m = o
				ps = append(ps, strParam(c.R, "b"), intParam(c.R, -1))
			}
			ps = append(ps, intParam(c.R, idx))
			if tail == 1 && op != 3 && op != 4 {
				ps = append(ps, strParam(c.R, []string{"k", "new"}[c.R.Intn(2)]))
				if c.R.Intn(2) == 0 {
					ps = append(ps, intParam(c.R, c.R.Intn(3)-1))
				}
			}
			if tail == 2 && op != 3 && op != 4 {
				ps = append(ps, intParam(c.R, c.R.Intn(5)-2))
			}
			h = newHist(c, &genCfg{maxDepth: 1, maxKids: 2, keys: smallKeys}, m, c.R.Intn(3))
			h.bad = 0
			h.one(op, ps)
			h.verify(true)
			c.Distinct(op, tail, n, nested, idx, paramsString(ps))
			c.Hit("grid")
		}
	}
}

// one does the given edit with a fresh child
func (h *Hist) one(op int, ps []param) {
	h.forced = ps
	var ops [6]int
	ops[op] = 1
	h.edit(ops)
	h.forced = nil
}

// p09Tides: a container grows to some size and shrinks to another, several times, by one kind of edit at a time or by
// all of them mixed, with a mirror of its nodes
func p09Tides(c *Case) {
	r := c.R
	top := []int{20, 40, 80, 150, 300, 700}[r.Intn(6)]
	high := c.Index%10 == 0 // few tides, but high ones
	if high {
		top = []int{1100, 1500, 2100, 3000, 4200, 5000, 6000}[c.Index/10%7]
	}
	if r.Intn(3) == 0 {
		p09ObjectTides(c, top)
		return
	}
	root := jv.NewArray()
	path := []any{}
	if r.Intn(2) == 0 {
		root = jv.NewObject()
		root.MustSetArray().At("a")
		path = []any{"a"}
	}
	var mirror []*jv.V
	at := func(i int) []any {
		n := len(mirror)
		if i < n && r.Intn(3) == 0 {
			i -= n
		}
		return append(path[:len(path):len(path)], i)
	}
	n := 0
	full := func(what string) {
		arr := root
		if len(path) > 0 {
			arr = root.MustGet(path[0])
		}
		if arr.Len() != len(mirror) {
			c.Fail("after %s: %d elements, want %d", what, arr.Len(), len(mirror))
		}
		for i, x := range mirror {
			if y, err := arr.Get(i); err != nil || y != x {
				c.Fail("after %s: element %d of %d is another one (%v)", what, i, len(mirror), err)
			}
		}
		c.Eval(1)
	}
	phases := 2 + r.Intn(5)
	if high {
		phases = 2 + r.Intn(2)
	}
	for phase := phases; phase > 0; phase-- {
		target := r.Intn(top + 1)
		if r.Intn(3) == 0 {
			target = r.Intn(4)
		}
		mode := r.Intn(5) // which kind of edit; 4: all
		if high {
			if (phases-phase)%2 == 0 {
				target = top - r.Intn(10)
			} else {
				target = r.Intn(4)
			}
			if mode == 1 && r.Intn(2) == 0 {
				mode = 0
			}
		}
		for steps := 0; len(mirror) != target && steps < 9000; steps++ {
			up := len(mirror) < target
			if r.Intn(8) == 0 {
				up = !up
			}
			m := mode
			if m == 4 {
				m = r.Intn(4)
			}
			n++
			x := jv.NewInt(n)
			le := len(mirror)
			var err error
			what := ""
			switch {
			case up && (m == 0 || le == 0):
				what = "appending"
				if len(path) > 0 {
					_, err = root.Append(x).InTheEnd(path...)
				} else {
					_, err = root.Append(x).InTheEnd()
				}
				mirror = append(mirror, x)
			case up && m == 1:
				what = "prepending"
				if len(path) > 0 {
					_, err = root.Append(x).InTheBeginning(path...)
				} else {
					_, err = root.Append(x).InTheBeginning()
				}
				mirror = append([]*jv.V{x}, mirror...)
			case up && m == 2:
				i := r.Intn(le)
				what = fmt.Sprintf("inserting before %d of %d", i, le)
				p := at(i)
				_, err = root.Insert(x).Before(p[0], p[1:]...)
				mirror = append(mirror[:i:i], append([]*jv.V{x}, mirror[i:]...)...)
			case up:
				i := r.Intn(le)
				what = fmt.Sprintf("inserting after %d of %d", i, le)
				p := at(i)
				_, err = root.Insert(x).After(p[0], p[1:]...)
				mirror = append(mirror[:i+1:i+1], append([]*jv.V{x}, mirror[i+1:]...)...)
			case le == 0:
				continue
			default:
				i := []int{le - 1, 0, r.Intn(le), r.Intn(le)}[m]
				what = fmt.Sprintf("deleting %d of %d", i, le)
				p := at(i)
				err = root.Delete(p[0], p[1:]...)
				mirror = append(mirror[:i:i], mirror[i+1:]...)
				if err == nil && len(mirror) > 0 && r.Intn(4) == 0 { // and put another in its place
					i := r.Intn(len(mirror))
					what += fmt.Sprintf(", then setting %d", i)
					p := at(i)
					_, err = root.Set(x).At(p[0], p[1:]...)
					mirror = append([]*jv.V{}, mirror...)
					mirror[i] = x
				}
			}
			c.Note("array of up to %d, %s", top, what)
			if err != nil {
				c.Fail("%s: %v", what, err)
			}
			if n%7 == 0 && (top < 1000 || n%203 == 0) || le < 40 {
				full(what)
			} else {
				arr := root
				if len(path) > 0 {
					arr = root.MustGet(path[0])
				}
				if arr.Len() != len(mirror) {
					c.Fail("after %s: %d elements, want %d", what, arr.Len(), len(mirror))
				}
			}
		}
		full("a phase")
		c.Distinct(top, mode, n, len(mirror))
	}
	c.Hit("tides")
}

func p09ObjectTides(c *Case, top int) {
	r := c.R
	v := jv.NewObject()
	keys := keyFamily(r, top)
	in := map[string]*jv.V{}
	out := append([]string{}, keys...)
	var have []string
	n := 0
	phases := 2 + r.Intn(5)
	if top > 1000 {
		phases = 2 + r.Intn(2)
	}
	for phase := phases; phase > 0; phase-- {
		target := r.Intn(top + 1)
		if r.Intn(3) == 0 {
			target = r.Intn(4)
		}
		if top > 1000 {
			target = top - r.Intn(10)
			if (phases-phase)%2 == 1 {
				target = r.Intn(4)
			}
		}
		for len(have) != target {
			n++
			up := len(have) < target
			if r.Intn(8) == 0 {
				up = !up
			}
			what := ""
			switch {
			case up && len(out) > 0:
				i := r.Intn(len(out))
				k := out[i]
				out[i] = out[len(out)-1]
				out = out[:len(out)-1]
				have = append(have, k)
				x := jv.NewInt(n)
				in[k] = x
				what = fmt.Sprintf("setting %q", k)
				if y, err := v.Set(x).At(k); err != nil || y != x {
					c.Fail("%s: %v", what, err)
				}
			case !up && len(have) > 0:
				i := r.Intn(len(have))
				k := have[i]
				have[i] = have[len(have)-1]
				have = have[:len(have)-1]
				out = append(out, k)
				delete(in, k)
				what = fmt.Sprintf("deleting %q", k)
				if err := v.Delete(k); err != nil {
					c.Fail("%s: %v", what, err)
				}
				if y, err := v.Get(k); err == nil {
					c.Fail("%s: it is still there: %v", what, y)
				}
			default:
				continue
			}
			c.Note("object of up to %d, %s", top, what)
			if v.Len() != len(in) {
				c.Fail("after %s: %d members, want %d", what, v.Len(), len(in))
			}
			if n%7 == 0 && (top < 1000 || n%203 == 0) || len(in) < 40 && (top < 1000 || n%7 == 0) {
				for _, k := range keys {
					y, err := v.Get(k)
					if x := in[k]; x == nil && err == nil || x != nil && (err != nil || y != x) {
						c.Fail("after %s: Get(%q) gives %v, %v", what, k, y, err)
					}
				}
				c.Eval(1)
			}
		}
		c.Distinct(top, n, len(have))
	}
	c.Hit("tides")
}

// p09Twice: a node that is in the document already is appended, inserted and set once more, in the same array and
// elsewhere. Nothing is edited inside such a node, so the document is the tree that shows it in both places.
func p09Twice(c *Case) {
	r := c.R
	type slot struct {
		v *jv.V
		m *RV
	}
	root := jv.NewObject()
	arrs := map[string][]slot{}
	names := []string{"a", "b"}
	for _, n := range names {
		root.MustSetArray().At(n)
		a := root.MustGet(n)
		for k := r.Intn(5); k > 0; k-- {
			m := genTree(r, &genCfg{maxDepth: 2, maxKids: 2}, 0)
			v, err := a.Append(buildV(r, m, r.Intn(3))).InTheEnd()
			if err != nil {
				c.Fail("Append: %v", err)
			}
			arrs[n] = append(arrs[n], slot{v, m})
		}
		if arrs[n] == nil {
			arrs[n] = []slot{}
		}
	}
	c.Note("%s", root.MustMarshalString(jv.OptSetSequence()))
	for step := 2 + r.Intn(10); step > 0; step-- {
		n := names[r.Intn(2)]
		from := arrs[names[r.Intn(2)]]
		x := slot{nil, genScalar(r, &genCfg{})}
		x.v = scalarV(r, x.m)
		if len(from) > 0 && r.Intn(5) != 0 {
			x = from[r.Intn(len(from))]
			if r.Intn(3) == 0 { // the outer ones are the likely special cases
				x = from[[]int{0, len(from) - 1}[r.Intn(2)]]
			}
			c.Hit("placed_again")
		}
		a := arrs[n]
		av := root.MustGet(n)
		ins := func(i int) []slot {
			b := append([]slot{}, a[:i]...)
			return append(append(b, x), a[i:]...)
		}
		var got *jv.V
		var err error
		what := ""
		byPath := r.Intn(2) == 0
		switch op := r.Intn(6); {
		case op == 0:
			what = "append at the beginning"
			if byPath {
				got, err = root.Append(x.v).InTheBeginning(n)
			} else {
				got, err = av.Append(x.v).InTheBeginning()
			}
			a = ins(0)
		case op == 1:
			what = "append at the end"
			if byPath {
				got, err = root.Append(x.v).InTheEnd(n)
			} else {
				got, err = av.Append(x.v).InTheEnd()
			}
			a = ins(len(a))
		case len(a) == 0:
			continue
		case op == 2:
			i := r.Intn(len(a))
			what = fmt.Sprint("insert before ", i)
			if byPath {
				got, err = root.Insert(x.v).Before(n, i)
			} else {
				got, err = av.Insert(x.v).Before(i - len(a)*r.Intn(2))
			}
			a = ins(i)
		case op == 3:
			i := r.Intn(len(a))
			what = fmt.Sprint("insert after ", i)
			if byPath {
				got, err = root.Insert(x.v).After(n, i)
			} else {
				got, err = av.Insert(x.v).After(i - len(a)*r.Intn(2))
			}
			a = ins(i + 1)
		case op == 4:
			i := r.Intn(len(a))
			what = fmt.Sprint("set at ", i)
			if byPath {
				got, err = root.Set(x.v).At(n, i)
			} else {
				got, err = av.Set(x.v).At(i - len(a)*r.Intn(2))
			}
			a = append([]slot{}, a...)
			a[i] = x
		default:
			i := r.Intn(len(a))
			what = fmt.Sprint("delete ", i)
			if byPath {
				err = root.Delete(n, i)
			} else {
				err = av.Delete(i - len(a)*r.Intn(2))
			}
			a = append(append([]slot{}, a[:i]...), a[i+1:]...)
			got = x.v
		}
		c.NoteMore("; %s of %s: %s", what, n, trunc(x.m.canon(), 100))
		if err != nil || got != x.v {
			c.Fail("%s gives %v, %v", what, got, err)
		}
		arrs[n] = a
		for _, n := range names {
			av := root.MustGet(n)
			if av.Len() != len(arrs[n]) {
				c.Fail("%q has %d elements, want %d: %s", n, av.Len(), len(arrs[n]), root)
			}
			for i, s := range arrs[n] {
				y, err := root.Get(n, i)
				if err != nil || y != s.v {
					c.Fail("element %d of %q is %v (%v), want %s", i, n, y, err, trunc(s.m.canon(), 200))
				}
				if d := diffV(y, s.m); d != "" {
					c.Fail("element %d of %q: %s", i, n, d)
				}
			}
		}
		c.Eval(1)
	}
	c.Distinct("twice", root.MustMarshalString(jv.OptSetSequence()))
}
