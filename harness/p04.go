package main

import (
	"encoding/json"
	"math"

	jv "github.com/Andrew-M-C/go.jsonvalue"
)

func init() {
	register(&Prop{
		ID: "P04",
		Rule: "random value trees (built by constructors, parsing, edits, import, with non-finite floats and malformed strings) are marshalled under random combinations of every option, by all marshal entry points; " +
			"each output is checked by a strict independent parser, compared with a model of the options and parsed back by the library and encoding/json; non-trivial: a distinct output or refusal",
		Need: []string{"spots", "marshalled", "refused", "omitted_members", "replaced_nonfinite", "indented", "ordered", "malformed_strings", "edited", "deep", "not_exist"},
		Suites: []Suite{
			{Name: "options", Quick: 360000, Thorough: 6000000, Run: p04Options},
			{Name: "malformed", Quick: 60000, Thorough: 1000000, Run: p04Malformed},
			{Name: "edited", Quick: 60000, Thorough: 1000000, Run: p04Edited},
			{Name: "deep", Quick: 192, Thorough: 1000, Run: p04Deep},
			{Name: "sizes", Quick: 110, Thorough: 2000, Run: func(c *Case) {
				sizedMarshal(c, &genCfg{nonFinite: c.R.Intn(4) == 0, nulls: 2}, oAll, 2)
			}},
			{Name: "notexist", Quick: 1200, Thorough: 10000, Run: p04NotExist},
			{Name: "spots", Quick: 4000, Thorough: 60000, Run: spotMarshal(oAll)},
			{Name: "life", Quick: 5000, Thorough: 90000, Run: lifeRun(genCfg{}, readMarshal(oAll), readMarshal(0))},
		},
	})
}

func p04Options(c *Case) {
	g := &genCfg{maxDepth: 1 + c.R.Intn(4), maxKids: 1 + c.R.Intn(5), nonFinite: c.R.Intn(3) == 0, nulls: 1 + c.R.Intn(4)}
	t := genTree(c.R, g, 0)
	how := c.R.Intn(3)
	if hasNonFinite(t) {
		how = []int{0, 2}[c.R.Intn(2)]
	}
	c.Note("value %s", trunc(t.canonSeq(), 3000))
	v := buildV(c.R, t, how)
	for k := 0; k < 3; k++ {
		o := genOpts(c.R, oAll, allKeys(t))
		c.Note("value %s built %d, options %s", trunc(t.canonSeq(), 3000), how, o.desc)
		out, got := checkMarshal(c, v, t, o, true)
		if out != nil && k == 0 {
			roundTrip(c, out, got)
		}
		c.Distinct(out, o.desc)
		if c.Index < 2 {
			c.Sample("%s with %s -> %s", trunc(t.canonSeq(), 200), o.desc, trunc(string(out), 200))
		}
	}
	// the value itself is what it was
	if d := diffV(v, t); d != "" && !hasNonFinite(t) {
		c.Fail("marshalling changed the value: %s", d)
	}
	// MarshalJSON and MarshalBinary
	j, err := v.MarshalJSON()
	b, err2 := v.MarshalBinary()
	if (err != nil) != hasNonFinite(t) || (err2 != nil) != hasNonFinite(t) {
		c.Fail("MarshalJSON: %v, MarshalBinary: %v", err, err2)
	}
	if err == nil {
		if d := diffOut(strict(c, j, "MarshalJSON"), t, false, "$"); d != "" {
			c.Fail("MarshalJSON: %s", d)
		}
		if d := diffOut(strict(c, b, "MarshalBinary"), t, false, "$"); d != "" {
			c.Fail("MarshalBinary: %s", d)
		}
	}
}

// p04Malformed: strings that are not UTF-8 must not break the output
func p04Malformed(c *Case) {
	g := &genCfg{maxDepth: 2, maxKids: 4, badUTF8: true, nonFinite: c.R.Intn(4) == 0}
	t := genTree(c.R, g, 0)
	c.Note("value %s", trunc(t.canonSeq(), 3000))
	v := buildV(c.R, t, 0)
	o := genOpts(c.R, oAll, allKeys(t))
	c.Note("value %s, options %s", trunc(t.canonSeq(), 3000), o.desc)
	want := o.apply(t)
	out, err := v.Marshal(o.opts...)
	c.Eval(1)
	if (err != nil) != want.fail {
		c.Fail("Marshal error %v, expected failure: %v", err, want.fail)
	}
	if err == nil {
		res := refParse(out, false)
		if !res.ok || !json.Valid(out) {
			c.Fail("invalid output %q", out)
		}
		c.Hit("malformed_strings")
		c.Distinct(out)
	}
}

// p04Edited: values that went through edits
func p04Edited(c *Case) {
	g := &genCfg{maxDepth: 3, maxKids: 4, nulls: 3}
	t := genDoc(c.R, g)
	v := buildV(c.R, t, c.R.Intn(3))
	for n := 1 + c.R.Intn(8); n > 0; n-- {
		editBoth(c, v, t, g)
	}
	o := genOpts(c.R, oAll, allKeys(t))
	c.Note("value %s after edits, options %s", trunc(t.canonSeq(), 3000), o.desc)
	out, got := checkMarshal(c, v, t, o, true)
	if out != nil {
		roundTrip(c, out, got)
	}
	c.Hit("edited")
	c.Distinct(out)
}

// p04Deep: long chains and wide containers, with and without a non-finite float at the bottom
func p04Deep(c *Case) {
	n := 1 + c.R.Intn(3000)
	bad := c.R.Intn(2) == 0
	leaf := genScalar(c.R, &genCfg{})
	if bad {
		leaf = rNaN([]float64{genAnyNaN(c.R), math.Inf(1), math.Inf(-1)}[c.R.Intn(3)])
	}
	t := leaf
	for i := 0; i < n; i++ {
		if c.R.Intn(2) == 0 {
			t = rArr(t)
		} else {
			o := rObj()
			o.set("k", t)
			if c.R.Intn(50) == 0 {
				o.set("n", rNull())
			}
			t = o
		}
	}
	v := buildV(c.R, t, 0)
	o := genOpts(c.R, oNaN|oOmit|oEsc|oOrder, []string{"k", "n"})
	c.Note("chain of %d containers around %s, options %s", n, leaf.canon(), o.desc)
	checkMarshal(c, v, t, o, true)
	c.Hit("deep")
	c.Distinct("deep", c.Index)
}

// p04NotExist: values that hold nothing never produce text
func p04NotExist(c *Case) {
	var v *jv.V
	switch c.Index % 5 {
	case 0:
		v = &jv.V{}
	case 1:
		v = jv.New(make(chan int))
	case 2:
		v, _ = jv.UnmarshalString("]" + genBadString(c.R))
	case 3:
		v = jv.NewObject().MustGet(genString(c.R))
	default:
		v, _ = jv.NewArray().Get(c.R.Intn(5))
	}
	c.Note("not existing value, kind %d", c.Index%5)
	o := genOpts(c.R, oAll, nil)
	b, err := v.Marshal(o.opts...)
	s, err2 := v.MarshalString(o.opts...)
	c.Eval(1)
	if err == nil || err2 == nil || len(b) != 0 || s != "" || len(v.MustMarshal(o.opts...)) != 0 || v.MustMarshalString(o.opts...) != "" {
		c.Fail("a not existing value marshals to %q %q, errors %v %v", b, s, err, err2)
	}
	c.Hit("not_exist")
	c.Distinct("notexist", c.Index%5, o.desc)
}
