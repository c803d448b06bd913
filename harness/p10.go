package main

import (
	"fmt"
	"math"

	jv "github.com/Andrew-M-C/go.jsonvalue"
)

func init() {
	register(&Prop{
		ID: "P10",
		Rule: "mostly rejected edits (bad paths behind auto-created prefixes, wrong types, indexes out of range, unusable children, surplus parameters) on random documents, with snapshots of content, set sequences and node pointers before and after; " +
			"successful ones must leave every node outside the target the same node; non-trivial: distinct (document, rejected edit)",
		Need: []string{"rejected_ErrNotFound", "rejected_ErrOutOfRange", "rejected_any error", "rejected_ErrValueUninitialized", "rejected_ErrTypeNotMatch", "rejected_ErrNotArrayValue", "rejected_ErrMultipleParam…",
			"rejected_ErrParameterError", "autocreate_then_fail", "ok_Set", "nil_receiver", "nil_child"},
		Suites: []Suite{
			{Name: "rejected", Quick: 192000, Thorough: 1500000, Run: p10Rejected},
			{Name: "sizes", Quick: 64, Thorough: 1000, Run: func(c *Case) { c.big = 50000; p10Rejected(c) }},
			{Name: "nowhere", Quick: 4000, Thorough: 40000, Run: p10Nowhere},
			{Name: "autocreate", Quick: 192000, Thorough: 1200000, Run: p10AutoCreate},
		},
	})
}

type before struct {
	r   *RV
	p   map[string]*jv.V
	out string
}

func snapshot(h *Hist) before {
	r, ok := snap(h.v)
	if !ok {
		h.fail("the document holds something that is no JSON value")
	}
	b, err := h.v.Marshal(jv.OptSetSequence())
	if err != nil {
		h.fail("marshalling: %v", err)
	}
	return before{r, pointers(h.v), string(b)}
}

func (h *Hist) unchanged(b before) {
	r, ok := snap(h.v)
	if !ok {
		h.fail("a rejected edit left something that is no JSON value")
	}
	if x, y := b.r.canonSeq(), r.canonSeq(); x != y {
		h.fail("a rejected edit changed the document from %s to %s", trunc(x, 1000), trunc(y, 1000))
	}
	p := pointers(h.v)
	for k, x := range b.p {
		if p[k] != x {
			h.fail("a rejected edit replaced the node at %s", k)
		}
	}
	if len(p) != len(b.p) {
		h.fail("a rejected edit changed the set of nodes")
	}
	if out, err := h.v.Marshal(jv.OptSetSequence()); err != nil || string(out) != b.out {
		h.fail("a rejected edit changed the output from %s to %s (%v)", trunc(b.out, 500), trunc(string(out), 500), err)
	}
	h.c.Eval(1)
}

func p10Rejected(c *Case) {
	g := histCfg(c)
	h := newHist(c, g, contTree(c, g), c.R.Intn(3))
	h.bad = 20 + c.R.Intn(60)
	steps := 2 + c.R.Intn(12)
	if c.big > 0 {
		steps = 3
	}
	for n := steps; n > 0; n-- {
		b := snapshot(h)
		if !h.edit([6]int{4, 2, 2, 2, 2, 3}) {
			h.unchanged(b)
			c.Distinct(b.out, h.log[len(h.log)-1])
		}
		h.verify(true)
	}
	if c.Index < 8 {
		c.Sample("%s; %s", trunc(h.init, 150), trunc(h.log[len(h.log)-1], 300))
	}
}

// p10AutoCreate: Set and Append paths that leave the document and go on, well or badly, for several elements
func p10AutoCreate(c *Case) {
	r := c.R
	g := histCfg(c)
	h := newHist(c, g, contTree(c, g), r.Intn(3))
	for n := 2 + r.Intn(6); n > 0; n-- {
		h.bad = []int{0, 0, 50}[r.Intn(3)]
		// a prefix inside the document
		var ps []param
		cur := h.m
		for cur.isCont() && r.Intn(3) != 0 {
			if cur.K == kObj && len(cur.Keys) > 0 {
				k := cur.Keys[r.Intn(len(cur.Keys))]
				ps = append(ps, strParam(r, k))
				cur = cur.O[k]
			} else if cur.K == kArr && len(cur.A) > 0 {
				i := r.Intn(len(cur.A))
				ps = append(ps, intParam(r, i-[]int{0, len(cur.A)}[r.Intn(2)]))
				cur = cur.A[i]
			} else {
				break
			}
		}
		// one step out of it
		switch cur.K {
		case kObj:
			ps = append(ps, strParam(r, "fresh"+genKey(r, &genCfg{keys: smallKeys})))
		case kArr:
			ps = append(ps, intParam(r, len(cur.A)))
		default:
			ps = append(ps, strParam(r, "x"))
		}
		// and on
		for m := r.Intn(5); m > 0; m-- {
			switch r.Intn(8) {
			case 0, 1, 2:
				ps = append(ps, strParam(r, genKey(r, g)))
			case 3, 4, 5:
				ps = append(ps, intParam(r, 0))
			case 6:
				ps = append(ps, intParam(r, []int{1, -1, 2, math.MaxInt64, math.MinInt64}[r.Intn(5)]))
			default:
				ps = append(ps, oddParam(r))
			}
		}
		b := snapshot(h)
		h.one([]int{0, 0, 0, 1, 2, 3, 4, 5}[r.Intn(8)], ps)
		if h.okLast {
			c.Hit("autocreate_ok")
		} else {
			h.unchanged(b)
			c.Hit("autocreate_then_fail")
			c.Distinct(b.out, h.log[len(h.log)-1])
		}
		h.verify(true)
	}
}

// p10Nowhere: edits of a nil *V are refused with an error, and so is a nil *V as a child, which leaves the document alone
func p10Nowhere(c *Case) {
	r := c.R
	g := histCfg(c)
	path := func() []any {
		var ps []any
		for n := r.Intn(4); n > 0; n-- {
			if r.Intn(2) == 0 {
				ps = append(ps, genKey(r, g))
			} else {
				ps = append(ps, r.Intn(5)-2)
			}
		}
		return ps
	}
	do := func(v *jv.V, child any, form int) (name string, res *jv.V, err error) {
		ps := path()
		switch form {
		case 0, 1:
			if len(ps) == 0 {
				ps = []any{genKey(r, g)}
			}
			name = fmt.Sprintf("Set.At(%v)", ps)
			res, err = v.Set(child).At(ps[0], ps[1:]...)
		case 2:
			name = fmt.Sprintf("Append.InTheBeginning(%v)", ps)
			res, err = v.Append(child).InTheBeginning(ps...)
		case 3:
			name = fmt.Sprintf("Append.InTheEnd(%v)", ps)
			res, err = v.Append(child).InTheEnd(ps...)
		case 4:
			ps = append(ps, 0)
			name = fmt.Sprintf("Insert.Before(%v)", ps)
			res, err = v.Insert(child).Before(ps[0], ps[1:]...)
		default:
			ps = append(ps, 0)
			name = fmt.Sprintf("Insert.After(%v)", ps)
			res, err = v.Insert(child).After(ps[0], ps[1:]...)
		}
		return
	}
	children := []any{1, "x", nil, true, 1.5, jv.NewInt(3), jv.NewObject(), map[string]int{"a": 1}, []int{1}}
	for form := 0; form < 6; form++ {
		name, _, err := do(nil, children[r.Intn(len(children))], form)
		if err == nil {
			c.Fail("%s on a nil *V succeeded", name)
		}
		c.Hit("nil_receiver")
		c.Eval(1)
		// a nil child: at any place of a real document
		h := newHist(c, g, contTree(c, g), r.Intn(3))
		b := snapshot(h)
		name, _, err = do(h.v, (*jv.V)(nil), form)
		if err == nil {
			h.fail("%s with a nil *V as the child succeeded", name)
		}
		h.unchanged(b)
		c.Hit("nil_child")
		c.Distinct(b.out, name)
	}
}
