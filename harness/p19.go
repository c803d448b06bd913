package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"strings"

	jv "github.com/Andrew-M-C/go.jsonvalue"
)

func init() {
	register(&Prop{
		ID: "P19",
		Rule: "random histories of setting and resetting the default options and of marshalling several documents through every entry point, with option objects drawn from one pool that is reused throughout; every output is compared with a model " +
			"that merges the options in order, and with the output of the same options given explicitly under the built-in defaults; option objects and slices are compared before and after; non-trivial: distinct histories",
		Need: []string{"sets", "resets", "empty_sets", "plain_marshals", "explicit_marshals", "interface_marshals", "explicit_equivalents", "struct_over_default", "refused", "ordered", "scribbled_option_lists", "literals", "lists", "listed_twice"},
		Suites: []Suite{
			{Name: "histories", Quick: 180000, Thorough: 3000000, Run: p19Histories},
			{Name: "pairs", Quick: 120000, Thorough: 1500000, Run: p19Pairs},
			{Name: "lists", Quick: 60000, Thorough: 600000, Run: p19Lists},
			{Name: "life", Quick: 2500, Thorough: 60000, Run: lifeRun(genCfg{nulls: 2}, readDefaults)},
		},
	})
}

// setter is an option with what it does to the model
type setter struct {
	opt   jv.Option
	apply func(o *mOpts)
	desc  string
	st    bool
}

func p19Setter(r *rand.Rand, keys []string) setter {
	s := setter{}
	switch r.Intn(22) {
	case 0:
		b := r.Intn(4) != 0
		s = setter{jv.OptOmitNull(b), func(o *mOpts) { o.omitNull = b }, fmt.Sprintf("OmitNull(%v)", b), false}
	case 1:
		s = setter{jv.OptDefaultStringSequence(), func(o *mOpts) { o.order, o.seq, o.less = 1, nil, nil }, "DefaultStringSequence", false}
	case 2, 3:
		seq := genSeq(r, keys)
		s = setter{jv.OptKeySequence(seq), func(o *mOpts) {
			o.order, o.seq, o.less, o.rank = 2, seq, nil, nil
			if len(seq) == 0 {
				o.order = 0
			}
		}, fmt.Sprintf("KeySequence(%q)", seq), false}
	case 4:
		s = setter{jv.OptSetSequence(), func(o *mOpts) { o.order, o.seq, o.less = 3, nil, nil }, "SetSequence", false}
	case 5:
		k := r.Intn(3)
		if k == 2 {
			s = setter{jv.OptKeySequenceWithLessFunc(nil), func(o *mOpts) {}, "LessFunc(nil)", false}
			break
		}
		f := [](func(a, b string) bool){revLess, lenLess}[k]
		s = setter{jv.OptKeySequenceWithLessFunc(jvLess(f)), func(o *mOpts) { o.order, o.seq, o.less = 4, nil, f }, fmt.Sprintf("LessFunc%d", k), false}
	case 6:
		f := optFloats[r.Intn(10)]
		s = setter{jv.OptFloatNaNToFloat(f), func(o *mOpts) { o.nan, o.nanF = 1, f }, fmt.Sprintf("NaNToFloat(%v)", f), false}
	case 7:
		s = setter{jv.OptFloatNaNToNull(), func(o *mOpts) { o.nan = 2 }, "NaNToNull", false}
	case 8:
		x := optStrings[r.Intn(len(optStrings))]
		s = setter{jv.OptFloatNaNToString(x), func(o *mOpts) { o.nan, o.nanS = 3, x }, fmt.Sprintf("NaNToString(%q)", x), false}
	case 9:
		s = setter{jv.OptFloatNaNToStringNaN(), func(o *mOpts) { o.nan, o.nanS = 3, "" }, "NaNToStringNaN", false}
	case 10:
		f := optFloats[r.Intn(10)]
		s = setter{jv.OptFloatInfToFloat(f), func(o *mOpts) { o.inf, o.infF = 1, f }, fmt.Sprintf("InfToFloat(%v)", f), false}
	case 11:
		s = setter{jv.OptFloatInfToNull(), func(o *mOpts) { o.inf = 2 }, "InfToNull", false}
	case 12:
		p, n := optStrings[r.Intn(len(optStrings))], optStrings[r.Intn(len(optStrings))]
		s = setter{jv.OptFloatInfToString(p, n), func(o *mOpts) { o.inf, o.infP, o.infN = 3, p, n }, fmt.Sprintf("InfToString(%q,%q)", p, n), false}
	case 13:
		s = setter{jv.OptFloatInfToStringInf(), func(o *mOpts) { o.inf, o.infP, o.infN = 3, "", "" }, "InfToStringInf", false}
	case 14:
		s = setter{jv.OptUTF8(), func(o *mOpts) { o.utf8 = true }, "UTF8", false}
	case 15, 16:
		b := r.Intn(2) == 0
		s = setter{jv.OptEscapeHTML(b), func(o *mOpts) { o.noHTML = !b }, fmt.Sprintf("EscapeHTML(%v)", b), false}
	case 17, 18:
		b := r.Intn(2) == 0
		s = setter{jv.OptEscapeSlash(b), func(o *mOpts) { o.noSlash = !b }, fmt.Sprintf("EscapeSlash(%v)", b), false}
	case 19:
		p, i := genIndent(r), genIndent(r)
		s = setter{jv.OptIndent(p, i), func(o *mOpts) { o.indent, o.prefix, o.ind = true, p, i }, fmt.Sprintf("Indent(%q,%q)", p, i), false}
	case 20:
		s = setter{jv.OptIgnoreOmitempty(), func(o *mOpts) {}, "IgnoreOmitempty", false}
	default:
		// a structure replaces everything before it
		m := mOpts{omitNull: r.Intn(2) == 0, nan: r.Intn(4), inf: r.Intn(4), nanF: optFloats[r.Intn(10)], infF: optFloats[r.Intn(10)]}
		m.nanS, m.infP, m.infN = optStrings[r.Intn(len(optStrings))], optStrings[r.Intn(len(optStrings))], optStrings[r.Intn(len(optStrings))]
		st := jv.Opt{OmitNull: m.omitNull, FloatNaNHandleType: jv.FloatNaNHandleType(m.nan), FloatNaNToFloat: m.nanF, FloatNaNToString: m.nanS,
			FloatInfHandleType: jv.FloatInfHandleType(m.inf), FloatInfToFloat: m.infF, FloatInfPositiveToString: m.infP, FloatInfNegativeToString: m.infN}
		switch r.Intn(4) {
		case 0:
			m.order, st.MarshalLessFunc = 1, jv.DefaultStringSequence
		case 1:
			if m.seq = genSeq(r, keys); len(m.seq) > 0 {
				m.order, st.MarshalKeySequence = 2, m.seq
			}
		case 2:
			m.order, m.less = 4, revLess
			st.MarshalLessFunc = jvLess(revLess)
		}
		var opt jv.Option = st
		d := "Opt"
		if r.Intn(2) == 0 {
			opt, d = &st, "&Opt"
		}
		s = setter{opt, func(o *mOpts) { *o = m }, fmt.Sprintf("%s{omit %v nan %d,%v,%q inf %d,%v,%q,%q order %d %q}", d, m.omitNull, m.nan, m.nanF, m.nanS, m.inf, m.infF, m.infP, m.infN, m.order, m.seq), true}
	}
	return s
}

type p19State struct {
	c    *Case
	pool []setter
	docs []*jv.V
	refs []*RV
	def  []setter // the current default setting
}

func newP19(c *Case, docs int) *p19State {
	s := &p19State{c: c}
	var keys []string
	for i := 0; i < docs; i++ {
		g := &genCfg{maxDepth: 1 + c.R.Intn(3), maxKids: 1 + c.R.Intn(5), nonFinite: i%2 == 1, nulls: 1 + c.R.Intn(3)}
		if c.R.Intn(2) == 0 {
			g.keys = []string{"a", "b", "c", "/", "<", "é", "\u2028", "10"}
		}
		t := genTree(c.R, g, 0)
		how := c.R.Intn(3)
		if hasNonFinite(t) {
			how = 0
		}
		s.docs = append(s.docs, buildV(c.R, t, how))
		s.refs = append(s.refs, t)
		keys = append(keys, allKeys(t)...)
	}
	for i := 0; i < 6+c.R.Intn(10); i++ {
		s.pool = append(s.pool, p19Setter(c.R, keys))
	}
	return s
}

func (s *p19State) pick(max int) []setter {
	var l []setter
	for n := s.c.R.Intn(max + 1); n > 0; n-- {
		l = append(l, s.pool[s.c.R.Intn(len(s.pool))])
	}
	return l
}

func optsOf(l []setter) []jv.Option {
	var o []jv.Option
	for _, x := range l {
		o = append(o, x.opt)
	}
	return o
}

func descOf(l []setter) string {
	var d []string
	for _, x := range l {
		d = append(d, x.desc)
	}
	return "[" + strings.Join(d, " ") + "]"
}

func modelOf(lists ...[]setter) *mOpts {
	o := &mOpts{}
	for _, l := range lists {
		for _, x := range l {
			x.apply(o)
		}
	}
	return o
}

// literals checks the escaping of every string in an output
func literals(c *Case, out []byte, o *mOpts) {
	e := escOpts{o.utf8, o.noHTML, o.noSlash}
	for i := 0; i < len(out); i++ {
		if out[i] != '"' {
			continue
		}
		j := i + 1
		for out[j] != '"' {
			if out[j] == '\\' {
				j++
			}
			j++
		}
		res := refParse(out[i:j+1], false)
		if !res.ok {
			c.Fail("string literal %q", out[i:j+1])
		}
		p05Exact(c, string(out[i:j+1]), res.v.S, e)
		c.Hit("literals")
		i = j
	}
}

// marshal runs one document under the current default and explicit options
func (s *p19State) marshal(explicit []setter) {
	c := s.c
	i := c.R.Intn(len(s.docs))
	v, t := s.docs[i], s.refs[i]
	o := modelOf(s.def, explicit)
	o.opts = optsOf(explicit)
	c.NoteMore("; marshal #%d %s with %s", i, trunc(t.canonSeq(), 500), descOf(explicit))
	before := fmt.Sprintf("%+v", s.lists(explicit))
	out, got := checkMarshal(c, v, t, o, true)
	if out != nil && (!o.indent || strings.TrimLeft(o.prefix+o.ind, " \t\n") == "") {
		literals(c, out, o)
	}
	for _, x := range explicit {
		if x.st && len(s.def) > 0 {
			c.Hit("struct_over_default")
		}
	}
	if len(explicit) == 0 {
		c.Hit("plain_marshals")
		// the entry points that take no options
		if c.R.Intn(3) == 0 {
			for k, f := range []func() ([]byte, error){v.MarshalJSON, v.MarshalBinary, func() ([]byte, error) { return json.Marshal(v) }} {
				b, err := f()
				if (err != nil) != (out == nil) {
					c.Fail("entry point %d gives error %v, Marshal gives %q", k, err, out)
				}
				if err != nil {
					continue
				}
				if k < 2 && o.order != 0 && !bytes.Equal(b, out) {
					c.Fail("entry point %d gives %s, Marshal gives %s", k, b, out)
				}
				x := strict(c, b, "marshalling interface")
				if d := diffOut(x, got, o.order != 0, "$"); d != "" {
					c.Fail("entry point %d: %s", k, d)
				}
				c.Hit("interface_marshals")
			}
		}
	} else {
		c.Hit("explicit_marshals")
	}
	if after := fmt.Sprintf("%+v", s.lists(explicit)); after != before {
		c.Fail("option objects changed by use: %s, were %s", after, before)
	}
	// the same options given explicitly under the built-in defaults
	if c.R.Intn(2) == 0 {
		jv.ResetDefaultMarshalOptions()
		all := append(append([]jv.Option{}, optsOf(s.def)...), optsOf(explicit)...)
		b, err := v.Marshal(all...)
		s.set(s.def, false)
		switch {
		case (err != nil) != (out == nil):
			c.Fail("the same options explicitly: error %v; as defaults: %q", err, out)
		case err != nil:
		case o.order != 0 && !bytes.Equal(b, out):
			c.Fail("the same options explicitly give %s, as defaults %s", trunc(string(b), 1000), trunc(string(out), 1000))
		case !strict(c, b, "explicit options").equal(got):
			c.Fail("the same options explicitly give %s, as defaults %s", trunc(string(b), 1000), trunc(string(out), 1000))
		case len(b) != len(out):
			c.Fail("the same options explicitly give another length: %s, as defaults %s", trunc(string(b), 1000), trunc(string(out), 1000))
		}
		c.Hit("explicit_equivalents")
	}
}

// lists shows the exported content of option structures, and the sequences given
func (s *p19State) lists(l []setter) []any {
	var r []any
	for _, x := range append(append([]setter{}, s.def...), l...) {
		st, ok := x.opt.(jv.Opt)
		if p, isP := x.opt.(*jv.Opt); isP {
			st, ok = *p, true
		}
		if ok {
			r = append(r, st.OmitNull, st.MarshalKeySequence, reflect.ValueOf(st.MarshalLessFunc).IsNil(), st.FloatNaNHandleType, st.FloatNaNToFloat, st.FloatNaNToString,
				st.FloatInfHandleType, st.FloatInfToFloat, st.FloatInfPositiveToString, st.FloatInfNegativeToString)
		}
		m := &mOpts{}
		x.apply(m)
		r = append(r, m.seq)
	}
	return r
}

func (s *p19State) set(l []setter, note bool) {
	list := optsOf(l)
	jv.SetDefaultMarshalOptions(list...)
	// the list is the caller's
	if len(list) > 0 && s.c.R.Intn(2) == 0 {
		for i := range list {
			list[i] = jv.Opt{OmitNull: true, FloatNaNHandleType: jv.FloatNaNNull}
		}
		s.c.Hit("scribbled_option_lists")
	}
	s.def = l
	if note {
		s.c.NoteMore("; set %s", descOf(l))
		s.c.Hit("sets")
		if len(l) == 0 {
			s.c.Hit("empty_sets")
		}
	}
}

func (s *p19State) reset() {
	s.c.NoteMore("; reset")
	s.c.Hit("resets")
	jv.ResetDefaultMarshalOptions()
	s.def = nil
}

func p19Histories(c *Case) {
	defer jv.ResetDefaultMarshalOptions()
	jv.ResetDefaultMarshalOptions()
	c.Note("history")
	s := newP19(c, 2+c.R.Intn(2))
	for n := 4 + c.R.Intn(14); n > 0; n-- {
		switch c.R.Intn(8) {
		case 0, 1:
			s.set(s.pick(4), true)
		case 2:
			s.reset()
		case 3, 4:
			s.marshal(nil)
		default:
			s.marshal(s.pick(3))
		}
	}
	c.Distinct(string(c.note))
	if c.Index < 6 {
		c.Sample("%s", trunc(string(c.note), 500))
	}
}

// p19Pairs follows one setting by another, the second of which must leave nothing of the first
func p19Pairs(c *Case) {
	defer jv.ResetDefaultMarshalOptions()
	jv.ResetDefaultMarshalOptions()
	c.Note("pair")
	s := newP19(c, 2)
	a, b := s.pick(5), s.pick(2)
	s.set(a, true)
	if c.R.Intn(2) == 0 {
		s.marshal(s.pick(2))
	}
	switch c.R.Intn(3) {
	case 0:
		s.reset()
	case 1:
		s.set(b, true)
	default:
		s.set(b, true)
		s.marshal(nil)
		s.reset()
		s.marshal(nil)
		s.set(a, true)
	}
	s.marshal(nil)
	s.marshal(s.pick(2))
	s.marshal(nil)
	c.Distinct(string(c.note))
}
