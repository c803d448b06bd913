package main

import (
	"math"
	"strings"

	jv "github.com/Andrew-M-C/go.jsonvalue"
)

func init() {
	register(&Prop{
		ID: "P07",
		Rule: "trees with NaN and infinities at random and at enumerated positions, made by every float constructor, are marshalled under combinations of the NaN and infinity options (functions and structure) and other options; " +
			"result or refusal is compared with a model of the options; non-trivial: a tree holding at least one non-finite float, distinct with its options",
		Need: []string{"texts_alike", "spots", "refused", "replaced_nonfinite", "ordered", "positions", "finite_trees"},
		Suites: []Suite{
			{Name: "sizes", Quick: 90, Thorough: 2000, Run: func(c *Case) { sizedMarshal(c, &genCfg{nonFinite: true}, oNaN, 3) }},
			{Name: "random", Quick: 600000, Thorough: 4000000, Run: p07Random},
			{Name: "positions", Quick: 45000, Thorough: 100000, Run: p07Positions},
			{Name: "spots", Quick: 4000, Thorough: 60000, Run: spotMarshal(oNaN | oOmit | oOrder)},
			{Name: "life", Quick: 6000, Thorough: 90000, Run: lifeRun(genCfg{nonFinite: true}, readMarshal(oNaN))},
		},
	})
}

func nonFiniteV(c *Case, f float64) *jv.V {
	switch c.R.Intn(8) {
	case 0:
		return jv.NewFloat32(float32(f))
	case 1:
		return jv.NewFloat64f(f, "feEgGx"[c.R.Intn(6)], c.R.Intn(4)-1)
	case 2:
		return jv.NewFloat32f(float32(f), "feEgG"[c.R.Intn(5)], c.R.Intn(4)-1)
	case 3:
		return jv.New(f)
	case 4:
		return jv.New(float32(f))
	case 5:
		a := jv.NewArray()
		a.MustAppendFloat64(f).InTheEnd()
		return a.MustGet(0)
	case 6:
		o := jv.NewObject()
		o.MustSetFloat32(float32(f)).At("x")
		return o.MustGet("x")
	}
	return jv.NewFloat64(f)
}

func p07Random(c *Case) {
	g := &genCfg{maxDepth: c.R.Intn(4), maxKids: 1 + c.R.Intn(5), nonFinite: c.R.Intn(10) != 0}
	t := genTree(c.R, g, 0)
	for k := 0; k < 4 && g.nonFinite && !hasNonFinite(t); k++ {
		g.maxDepth = 1 + c.R.Intn(3)
		t = genTree(c.R, g, 0)
	}
	v := buildV(c.R, t, 0)
	o := genOpts(c.R, oNaN|[]int{0, oOrder, oEsc, oIndent, oOmit, oAll}[c.R.Intn(6)], allKeys(t))
	c.Note("value %s, options %s", trunc(t.canonSeq(), 2000), o.desc)
	out, got := checkMarshal(c, v, t, o, true)
	if out != nil && c.Index%4 == 0 {
		roundTrip(c, out, got)
	}
	if hasNonFinite(t) {
		c.Distinct(t.canonSeq(), o.desc)
	} else {
		c.Hit("finite_trees")
	}
	if c.Index < 8 {
		c.Sample("%s with %s -> %q", trunc(t.canonSeq(), 150), o.desc, trunc(string(out), 150))
	}
}

// p07Positions puts one non-finite float at every kind of place
func p07Positions(c *Case) {
	f := []float64{genAnyNaN(c.R), math.Inf(1), math.Inf(-1)}[c.Index%3]
	shape := c.Index / 3
	t := rNaN(f)
	v := nonFiniteV(c, f)
	desc := []string{}
	for d := shape % 5; d > 0; d-- {
		before, after := c.R.Intn(3), c.R.Intn(3)
		if c.R.Intn(2) == 0 {
			nt, nv := rArr(), jv.NewArray()
			for i := 0; i <= before+after; i++ {
				if i == before {
					nt.A = append(nt.A, t)
					nv.MustAppend(v).InTheEnd()
					continue
				}
				x := genScalar(c.R, &genCfg{nulls: 3})
				nt.A = append(nt.A, x)
				nv.MustAppend(scalarV(c.R, x)).InTheEnd()
			}
			t, v = nt, nv
			desc = append(desc, "array")
		} else {
			nt, nv := rObj(), jv.NewObject()
			for i := 0; i <= before+after; i++ {
				k := string(rune('a'+c.R.Intn(6))) + string(rune('a'+i))
				if i == before {
					nt.set(k, t)
					nv.MustSet(v).At(k)
					continue
				}
				x := genScalar(c.R, &genCfg{nulls: 3})
				nt.set(k, x)
				nv.MustSet(scalarV(c.R, x)).At(k)
			}
			t, v = nt, nv
			desc = append(desc, "object")
		}
	}
	c.Note("%v inside %s: %s", f, strings.Join(desc, ","), trunc(t.canonSeq(), 1000))
	// a text in the place of a number is written as the same text is anywhere else
	if text := genString(c.R); text != "" {
		eo := genOpts(c.R, oEsc, nil)
		x := jv.NewFloat64(f).MustMarshalString(append(eo.opts, jv.OptFloatNaNToString(text), jv.OptFloatInfToString(text, text))...)
		if y := jv.NewString(text).MustMarshalString(eo.opts...); x != y {
			c.Fail("%v to the text %q with %s is written %s, the text itself %s", f, text, eo.desc, x, y)
		}
		c.Hit("texts_alike")
	}
	// without options: refused, by every entry point
	none := &mOpts{}
	checkMarshal(c, v, t, none, true)
	if _, err := v.MarshalJSON(); err == nil {
		c.Fail("MarshalJSON accepts a non-finite float")
	}
	if _, err := v.MarshalBinary(); err == nil {
		c.Fail("MarshalBinary accepts a non-finite float")
	}
	for k := 0; k < 12; k++ {
		o := genOpts(c.R, oNaN|[]int{0, oOrder, oOrder | oOmit, oAll}[k%4], allKeys(t))
		c.Note("%v inside %s: %s, options %s", f, strings.Join(desc, ","), trunc(t.canonSeq(), 1000), o.desc)
		checkMarshal(c, v, t, o, true)
		c.Distinct(c.Index, o.desc)
	}
	c.Hit("positions")
}
