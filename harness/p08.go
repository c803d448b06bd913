package main

import (
	"bytes"
	"encoding/json"
	"math/rand"

	jv "github.com/Andrew-M-C/go.jsonvalue"
)

func init() {
	register(&Prop{
		ID: "P08",
		Rule: "null-rich trees under OptOmitNull and OptIndent, alone and with every other option: outputs are compared with a model that drops null members, with the output of the dropped tree itself, " +
			"and with encoding/json's indentation; non-trivial: distinct tree and options with an omitted member or an indent",
		Need: []string{"omitted_members", "indented", "first_member_null", "last_member_null", "all_members_null", "array_nulls_kept", "ordered", "any_indent"},
		Suites: []Suite{
			{Name: "random", Quick: 1200000, Thorough: 4000000, Run: p08Random},
			{Name: "patterns", Quick: 30000, Thorough: 60000, Run: p08Patterns},
			{Name: "sizes", Quick: 90, Thorough: 2000, Run: func(c *Case) { sizedMarshal(c, &genCfg{nulls: 5}, oOmit|oIndent, 3) }},
			{Name: "deepindent", Quick: 6000, Thorough: 10000, Run: p08Deep},
			{Name: "anyindent", Quick: 120000, Thorough: 1000000, Run: p08AnyIndent},
			{Name: "life", Quick: 6000, Thorough: 90000, Run: lifeRun(genCfg{nulls: 5}, readMarshal(oOmit|oIndent))},
		},
	})
}

// dropNulls removes null members of objects
func dropNulls(t *RV) *RV {
	switch t.K {
	case kArr:
		n := &RV{K: kArr}
		for _, x := range t.A {
			n.A = append(n.A, dropNulls(x))
		}
		return n
	case kObj:
		n := rObj()
		for _, k := range t.Keys {
			if t.O[k].K != kNull {
				n.set(k, dropNulls(t.O[k]))
			}
		}
		return n
	}
	return t
}

func p08Check(c *Case, t *RV, mask int) {
	v := buildV(c.R, t, c.R.Intn(3))
	o := genOpts(c.R, mask, allKeys(t))
	c.Note("value %s, options %s", trunc(t.canonSeq(), 2000), o.desc)
	out, got := checkMarshal(c, v, t, o, true)
	if out != nil && c.Index%8 == 0 {
		roundTrip(c, out, got)
	}
	if o.omitNull || o.indent {
		c.Distinct(t.canonSeq(), o.desc)
	}
	if !o.omitNull {
		return
	}
	// the same tree without its null members, without the option
	d := dropNulls(t)
	if o.order != 0 {
		opts := append(append([]jv.Option{}, o.opts...), jv.OptOmitNull(false))
		out2, err := buildV(c.R, d, c.R.Intn(3)).Marshal(opts...)
		if err != nil || !bytes.Equal(out, out2) {
			c.Fail("with OptOmitNull %q, the tree without nulls gives %q (%v)", trunc(string(out), 1000), trunc(string(out2), 1000), err)
		}
		c.Eval(1)
	}
	var walk func(t *RV)
	walk = func(t *RV) {
		for _, x := range t.A {
			if x.K == kNull {
				c.Hit("array_nulls_kept")
			}
			walk(x)
		}
		nn := 0
		for i, k := range t.Keys {
			x := t.O[k]
			if x.K == kNull {
				nn++
				if i == 0 && len(t.Keys) > 1 {
					c.Hit("first_member_null")
				}
				if i == len(t.Keys)-1 && i > 0 {
					c.Hit("last_member_null")
				}
			}
			walk(x)
		}
		if nn > 1 && nn == len(t.Keys) {
			c.Hit("all_members_null")
		}
	}
	walk(t)
}

func p08Random(c *Case) {
	g := &genCfg{maxDepth: c.R.Intn(4), maxKids: 1 + c.R.Intn(6), nulls: 1 + c.R.Intn(15)}
	p08Check(c, genTree(c.R, g, 0), []int{oOmit, oIndent, oOmit | oIndent, oOmit | oOrder, oIndent | oOrder, oOmit | oIndent | oOrder | oEsc}[c.R.Intn(6)])
}

// p08Patterns: every pattern of null and other members in objects of up to 7 members
func p08Patterns(c *Case) {
	n := 1 + c.Index%7
	bits := c.R.Intn(1 << n)
	t := rObj()
	for i := 0; i < n; i++ {
		k := string(rune('a' + i))
		if bits>>i&1 != 0 {
			t.set(k, rNull())
		} else if c.R.Intn(4) == 0 {
			x := rObj()
			x.set("n", rNull())
			x.set("m", rArr(rNull(), rObj()))
			t.set(k, x)
		} else {
			t.set(k, genScalar(c.R, &genCfg{}))
		}
	}
	x := t
	switch c.R.Intn(3) {
	case 0:
		x = rArr(rNull(), t, rNull())
	case 1:
		x = rObj()
		x.set("o", t)
		x.set("z", rNull())
	}
	for k := 0; k < 4; k++ {
		p08Check(c, x, []int{oOmit | oOrder, oOmit, oOmit | oIndent | oOrder, oOmit | oEsc}[k])
	}
}

// p08Deep: indentation of deep documents
func p08Deep(c *Case) {
	t := genTree(c.R, &genCfg{maxDepth: 3, maxKids: 3}, 0)
	depth := c.R.Intn(60)
	if c.R.Intn(24) == 0 {
		depth = c.R.Intn(500)
	}
	for n := depth; n > 0; n-- {
		if c.R.Intn(2) == 0 {
			t = rArr(t)
			if c.R.Intn(3) == 0 {
				t.A = append(t.A, rArr(), rObj(), rNum("1"))
			}
		} else {
			o := rObj()
			o.set("a", t)
			if c.R.Intn(3) == 0 {
				o.set("b", rArr())
				o.set("c", rObj())
			}
			t = o
		}
	}
	for k := 0; k < 4; k++ {
		p08Check(c, t, oIndent|[]int{0, oOrder, oEsc, oOmit}[k])
	}
}

// genIndent makes a text to indent with: blanks of any mixture
func genIndent(r *rand.Rand) string {
	if r.Intn(3) != 0 {
		return indents[r.Intn(len(indents))]
	}
	n := 1 + r.Intn(6)
	switch r.Intn(12) {
	case 0:
		n = []int{16, 32, 40, 64, 80, 128, 200}[r.Intn(7)]
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = " \t \t\n\r"[r.Intn(6)]
	}
	if r.Intn(3) == 0 {
		for i := range b {
			b[i] = b[0]
		}
	}
	return string(b)
}

var oddIndents = []string{"-", "--", "..", "> ", "// ", "|", "\t|", "é", "中 ", "\u00a0", "\"", "\\", "{", "}", ",", ":", "]", "[ ", "%d", "%s", "null", "1", "\x00", "\xff", "\u2028", "<b>", "\x1b[0m", "\\n", "${x}", "a\nb"}

// p08AnyIndent: prefix and indent of any content. The result is what json.Indent makes of the output without
// OptIndent; the keys are ordered, so that both outputs have them in the same order.
func p08AnyIndent(c *Case) {
	r := c.R
	g := &genCfg{maxDepth: 1 + r.Intn(4), maxKids: 1 + r.Intn(5), nulls: 2}
	t := genTree(r, g, 0)
	v := buildV(r, t, r.Intn(3))
	text := func() string {
		if r.Intn(3) == 0 {
			return genIndent(r)
		}
		s := oddIndents[r.Intn(len(oddIndents))]
		switch r.Intn(4) {
		case 0:
			s += genIndent(r)
		case 1:
			s = genIndent(r) + s
		case 2:
			s = genIndent(r) + s + genIndent(r)
		}
		return s
	}
	base := []jv.Option{[]jv.Option{jv.OptSetSequence(), jv.OptDefaultStringSequence()}[r.Intn(2)]}
	if r.Intn(2) == 0 {
		base = append(base, jv.OptOmitNull(true))
	}
	if r.Intn(2) == 0 {
		base = append(base, jv.OptUTF8())
	}
	c.Note("value %s, %d options", trunc(t.canonSeq(), 1500), len(base))
	plain, err := v.Marshal(base...)
	if err != nil {
		c.Fail("Marshal: %v", err)
	}
	for k := 0; k < 3; k++ {
		p, in := text(), text()
		if k == 2 && r.Intn(2) == 0 {
			p = ""
		}
		opts := append(append([]jv.Option{}, base...), jv.OptIndent(p, in))
		r.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
		c.Note("value %s, %d options, prefix %q, indent %q", trunc(t.canonSeq(), 1500), len(base), p, in)
		out, err := v.Marshal(opts...)
		if err != nil {
			c.Fail("Marshal: %v", err)
		}
		var want bytes.Buffer
		if err := json.Indent(&want, plain, p, in); err != nil {
			c.Fail("json.Indent: %v", err)
		}
		c.Eval(1)
		c.Hit("any_indent")
		if !bytes.Equal(out, want.Bytes()) {
			c.Fail("indented output %q, encoding/json indents it as %q", trunc(string(out), 1500), trunc(want.String(), 1500))
		}
		c.Distinct(t.canonSeq(), p, in)
	}
}
