package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	jv "github.com/Andrew-M-C/go.jsonvalue"
)

func init() {
	register(&Prop{
		ID: "P06",
		Rule: "random nested trees with few and many keys are marshalled under each ordering option; the key order of every object in the output is compared with an independent sort, and less functions " +
			"(depending on path, keys or values) are monitored for the path and values they are given; non-trivial: a distinct tree with an object of two or more keys",
		Need: []string{"order_1", "order_2", "order_3", "order_4", "callbacks", "callback_paths_nested", "callback_paths_array", "retained_paths", "absent_listed_keys", "inside_callbacks", "left_by_panic"},
		Suites: []Suite{
			{Name: "orders", Quick: 480000, Thorough: 4000000, Run: p06Orders},
			{Name: "less", Quick: 240000, Thorough: 2000000, Run: p06Less},
			{Name: "sizes", Quick: 90, Thorough: 2000, Run: func(c *Case) { sizedMarshal(c, &genCfg{}, oOrder, 3) }},
			{Name: "wide", Quick: 1600, Thorough: 6000, Run: p06Wide},
			{Name: "life", Quick: 6000, Thorough: 90000, Run: lifeRun(genCfg{}, readMarshal(oOrder))},
		},
	})
}

func p06Tree(c *Case) *RV {
	g := &genCfg{maxDepth: 1 + c.R.Intn(4), maxKids: 1 + c.R.Intn(8)}
	if c.R.Intn(2) == 0 {
		g.keys = []string{"a", "b", "c", "d", "e", "aa", "A", "", "ab", "é", "1", "10", "2"}
	}
	return genDoc(c.R, g)
}

func p06Orders(c *Case) {
	t := p06Tree(c)
	c.Note("value %s", trunc(t.canonSeq(), 3000))
	v := buildV(c.R, t, c.R.Intn(3))
	o := genOpts(c.R, oOrder, allKeys(t))
	for o.order == 0 {
		o = genOpts(c.R, oOrder, allKeys(t))
	}
	extra := genOpts(c.R, oEsc|oIndent|oOmit, nil)
	o.opts = append(o.opts, extra.opts...)
	if _, ok := extra.opts0(); ok {
		// a structure replaces everything before it: keep it first
		o.opts = append(append([]jv.Option{}, extra.opts...), o.opts[:len(o.opts)-len(extra.opts)]...)
		if _, ok := o.opts[len(extra.opts)].(jv.Opt); ok {
			return
		}
	}
	o.omitNull, o.indent, o.prefix, o.ind = extra.omitNull, extra.indent, extra.prefix, extra.ind
	seq := append([]string(nil), o.seq...)
	c.Note("value %s, options %s + %s", trunc(t.canonSeq(), 3000), o.desc, extra.desc)
	for k := 0; k < 2; k++ { // twice: an option object can be used again
		checkMarshal(c, v, t, o, true)
	}
	if fmt.Sprint(seq) != fmt.Sprint(o.seq) {
		c.Fail("the caller's key sequence changed to %q", o.seq)
	}
	c.Hit("order_" + strconv.Itoa(o.order))
	keys := map[string]bool{}
	for _, k := range allKeys(t) {
		keys[k] = true
	}
	for _, k := range o.seq {
		if !keys[k] {
			c.Hit("absent_listed_keys")
			break
		}
	}
	if len(keys) > 1 {
		c.Distinct(t.canonSeq(), o.desc)
	}
	if c.Index < 8 {
		c.Sample("%s with %s", trunc(t.canonSeq(), 200), o.desc)
	}
}

// opts0 is the structure option, if it comes first
func (o *mOpts) opts0() (jv.Opt, bool) {
	if len(o.opts) > 0 {
		s, ok := o.opts[0].(jv.Opt)
		return s, ok
	}
	return jv.Opt{}, false
}

func pathString(p jv.KeyPath) string {
	var b strings.Builder
	for _, k := range p {
		if k.IsInt() == k.IsString() {
			return "key is both or neither of int and string"
		}
		if k.IsInt() {
			b.WriteString("[" + strconv.Itoa(k.Int()) + "]")
		} else {
			b.WriteString("." + strconv.Quote(k.String()))
		}
	}
	return b.String()
}

// p06Less monitors every call of a less function
func p06Less(c *Case) {
	t := p06Tree(c)
	c.Note("value %s", trunc(t.canonSeq(), 3000))
	v := buildV(c.R, t, c.R.Intn(3))
	// nodes by path
	type obj struct {
		m *RV
		v *jv.V
	}
	byPath := map[string]obj{}
	var walk func(m *RV, v *jv.V, path string)
	walk = func(m *RV, v *jv.V, path string) {
		byPath[path] = obj{m, v}
		for i, x := range m.A {
			walk(x, v.MustGet(i), path+"["+strconv.Itoa(i)+"]")
		}
		for k, x := range m.O {
			walk(x, v.MustGet(k), path+"."+strconv.Quote(k))
		}
	}
	walk(t, v, "")

	kind := c.R.Intn(4)
	// less by path: a total order over keys that depends on the path
	lessAt := func(path, a, b string, o obj) bool {
		switch kind {
		case 0:
			return a < b
		case 1: // by depth parity
			if strings.Count(path, ".")%2 == 0 {
				return a < b
			}
			return a > b
		case 2: // by path text length
			if len(path)%3 == 0 {
				return lenLess(a, b)
			}
			return revLess(a, b)
		default: // by value, then by key
			x, y := o.m.O[a].canon(), o.m.O[b].canon()
			if x != y {
				return x < y
			}
			return a < b
		}
	}
	type kept struct {
		p    *jv.ParentInfo
		path string
	}
	var retained []kept
	calls, nested, inArr := 0, 0, 0
	every := 0 // the function itself uses the library, every so many calls
	if c.R.Intn(12) == 0 {
		every = 1 + c.R.Intn(12)
	}
	throwAt := -1 // or leaves by a panic, the first time
	if c.R.Intn(12) == 0 {
		throwAt = 1 + c.R.Intn(8)
	}
	f := func(p *jv.ParentInfo, k1, k2 string, v1, v2 *jv.V) bool {
		calls++
		if calls == throwAt {
			throwAt = -1
			c.Hit("left_by_panic")
			panic(errThrown{calls})
		}
		if every > 0 && calls%every == 0 {
			c.meddle(v, v1, v2)
		}
		path := ""
		if p != nil {
			path = pathString(p.KeyPath)
			nested++
			if strings.Contains(path, "[") {
				inArr++
			}
			_ = p.KeyPath.String()
			if len(retained) < 200 {
				retained = append(retained, kept{p, path})
			}
		}
		o, ok := byPath[path]
		if !ok {
			c.Fail("less function called with path %q, which is not in the document", path)
		}
		if o.m.K != kObj {
			c.Fail("less function called with path %q, which is not an object", path)
		}
		for i, k := range []string{k1, k2} {
			if _, ok := o.m.O[k]; !ok {
				c.Fail("less function called with key %q, which the object at %q does not have", k, path)
			}
			if o.v.MustGet(k) != []*jv.V{v1, v2}[i] {
				c.Fail("less function called with another value than that of key %q of the object at %q", k, path)
			}
		}
		return lessAt(path, k1, k2, o)
	}
	opt := jv.Option(jv.OptKeySequenceWithLessFunc(f))
	if c.R.Intn(3) == 0 {
		opt = jv.Opt{MarshalLessFunc: f}
	}
	opts := []jv.Option{opt}
	if c.R.Intn(3) == 0 {
		opts = append(opts, jv.OptIndent("", " "))
	}
	var out []byte
	var err error
	if thrown(func() { out, err = v.Marshal(opts...) }) { // nothing of it remains
		out, err = v.Marshal(opts...)
	}
	if err != nil {
		c.Fail("Marshal: %v", err)
	}
	c.Eval(1)
	got := strict(c, out, "Marshal")
	if d := diffOut(got, t, false, "$"); d != "" {
		c.Fail("%s", d)
	}
	var check func(g *RV, path string)
	check = func(g *RV, path string) {
		for i, x := range g.A {
			check(x, path+"["+strconv.Itoa(i)+"]")
		}
		o := byPath[path]
		want := append([]string(nil), g.Keys...)
		sort.Slice(want, func(i, j int) bool { return lessAt(path, want[i], want[j], o) })
		for i, k := range g.Keys {
			if want[i] != k {
				c.Fail("object at %q: key order %q, want %q", path, g.Keys, want)
			}
			check(g.O[k], path+"."+strconv.Quote(k))
		}
	}
	check(got, "")
	for _, k := range retained {
		if p := pathString(k.p.KeyPath); p != k.path {
			c.Fail("a path given to the less function was %q and later became %q", k.path, p)
		}
	}
	c.HitN("callbacks", calls)
	c.HitN("callback_paths_nested", nested)
	c.HitN("callback_paths_array", inArr)
	c.HitN("retained_paths", len(retained))
	if calls > 0 {
		c.Distinct(t.canonSeq(), kind)
	}
}

// p06Wide: objects with many keys
func p06Wide(c *Case) {
	n := 10 + c.R.Intn(500)
	t := rObj()
	for i := 0; i < n; i++ {
		k := strconv.Itoa(c.R.Intn(n * 2))
		if c.R.Intn(3) == 0 {
			k = genString(c.R)
		}
		x := rNum(strconv.Itoa(i))
		if c.R.Intn(10) == 0 {
			x = rObj()
			x.set("b", rNum("1"))
			x.set("a", rNum("2"))
			x = rArr(x)
		}
		t.set(k, x)
	}
	v := buildV(c.R, t, c.R.Intn(3))
	o := genOpts(c.R, oOrder, t.Keys)
	if o.order == 2 && c.R.Intn(2) == 0 {
		seq := append([]string(nil), t.Keys...)
		c.R.Shuffle(len(seq), func(i, j int) { seq[i], seq[j] = seq[j], seq[i] })
		o = &mOpts{order: 2, seq: seq[:c.R.Intn(len(seq))+1]}
		o.opts = []jv.Option{jv.OptKeySequence(o.seq)}
	}
	c.Note("object of %d keys, options %s", len(t.Keys), o.desc)
	checkMarshal(c, v, t, o, true)
	c.Distinct("wide", c.Index)
}
